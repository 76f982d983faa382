-------------------------------- MODULE MCDump --------------------------------
(* The dump files of a session (in a build with dumping): a record of what     *)
(* each party held, as lines that name labels.  A line is [p, l]: p is TRUE    *)
(* when the wire is public (what the line says is then unspecified), else l is *)
(* the symbolic label of Garbling.tla that the line has to show - a set of     *)
(* atoms, R among them for the label of 1.                                     *)
(*   r_key   the garbler: R and the key; the evaluator: the key                *)
(*   dff     the flip-flops when they start                                    *)
(*   input   the secret inputs of every executed cycle                         *)
(*   table   the two rows of every table sent, in order                        *)
(*   output  the outputs of every executed cycle                               *)
(* The garbler shows the labels of 0, the evaluator the labels it holds.       *)
EXTENDS Session, IOUtils

FromFile == ndJsonDeserialize(IOEnv.SESSIONS)
WellFormedSession == WellFormed(C)

Open   == [p |-> TRUE, l |-> {}]
Shown(X) == [p |-> FALSE, l |-> X]
Own(who, atom) == Shown(IF who = "A" THEN {atom} ELSE Times(AtomBit(atom), {atom}))
DffLines(who) ==
  [d \in 1..NDff(C) |-> IF C.I[d] >= C.pi /\ C.I[d] < InitSize(C) THEN Own(who, InitAtom(C, C.I[d] - C.pi)) ELSE Open]
InputLines(who, n) ==
  LET k == NSecIn(C) IN [j \in 1..(n * k) |-> Own(who, InputAtom(C, (j - 1) \div k, (j - 1) % k))]
OutputLines(p) ==
  LET m == NOut(C)
  IN [j \in 1..(p.n * m) |-> LET o == p.osh[(j - 1) \div m + 1][((j - 1) % m) + 1] IN IF IsSecret(o.v) THEN Shown(o.l) ELSE Open]
SentGids == FoldLeft(LAMBDA acc, m : IF m.k = "tables" THEN acc \o Gids(m.tabs) ELSE acc, <<>>, chAB.log)

DumpOf(p) == [dff |-> DffLines(p.who), input |-> InputLines(p.who, p.n), output |-> OutputLines(p), tables |-> Len(SentGids)]

Ended == Done /\ S.ok /\ A.rc = 0 /\ B.rc = 0
(* The evaluator's lines are the garbler's, moved by R exactly for the wires   *)
(* that carry 1 in the clear-text run; both agree on what is public.           *)
Related(a, b, bit) == a.p = b.p /\ (~a.p => b.l = Times(bit, a.l))
Consistent == Ended =>
  LET a == DumpOf(A) b == DumpOf(B) m == NOut(C) IN
  /\ Len(a.output) = Len(b.output) /\ Len(a.input) = Len(b.input) /\ A.n = B.n
  /\ \A j \in 1..Len(a.output) : Related(a.output[j], b.output[j], Truth[(j - 1) \div m + 1][((j - 1) % m) + 1])
  /\ \A j \in 1..Len(a.input) : a.input[j].l \ {R} = b.input[j].l \ {R}
(* The evaluator's dump never shows R: no combination of its lines is {R}.     *)
RECURSIVE Reduced(_, _)
Reduced(basis, X) ==
  IF X = {} THEN X
  ELSE LET top == CHOOSE k \in X : \A j \in X : j <= k
           hit == SelectSeq(basis, LAMBDA Y : (CHOOSE k \in Y : \A j \in Y : j <= k) = top)
       IN IF hit = <<>> THEN X ELSE Reduced(basis, XorL(X, hit[1]))
OffsetHidden == Ended =>
  LET b == DumpOf(B)
      lines == SelectSeq(b.dff \o b.input \o b.output, LAMBDA x : ~x.p)
      basis == FoldLeft(LAMBDA bs, x : LET Y == Reduced(bs, x.l) IN IF Y = {} THEN bs ELSE Append(bs, Y), <<>>, lines)
  IN Reduced(basis, {R}) # {}

Emit == Done => PrintT("@@" \o ToJson(
   [sid |-> sid, ok |-> Ended, a |-> DumpOf(A), b |-> DumpOf(B),
    outA |-> IF A.rc = 0 THEN Rendered(A.out, S.mode) ELSE <<>>, outB |-> IF B.rc = 0 THEN Rendered(B.out, S.mode) ELSE <<>>]))
=============================================================================
