----------------------------- MODULE MCSession -----------------------------
(* Session over the sessions of a file, with the properties to check.          *)
EXTENDS Session, IOUtils

FromFile == ndJsonDeserialize(IOEnv.SESSIONS)

WellFormedSession == WellFormed(C)

(* Results: a party that succeeds reports exactly its share of the clear-text  *)
(* run (C01, C02, C03, C04, and C06 when the connection may break).            *)
CorrectA == (A.part = "done" /\ A.rc = 0) => A.out = Share(Truth, S.mask, "A")
CorrectB == (B.part = "done" /\ B.rc = 0) => B.out = Share(Truth, S.mask, "B")
(* An unbroken session succeeds on both sides, with every message consumed     *)
(* (C05) and the same number of cycles (C03).                                  *)
Completes == (Done /\ ~broken /\ S.ok) => A.rc = 0 /\ B.rc = 0 /\ A.n = B.n /\ ~Has(chAB) /\ ~Has(chBA)
NoFalseFailure == ~broken /\ S.ok => A.rc = 0 /\ B.rc = 0
(* C19: a request that cannot be executed fails at once, with nothing sent.    *)
Refused == ~S.ok => A.rc = -1 /\ B.rc = -1 /\ chAB.log = <<>> /\ chBA.log = <<>>
(* C19: with another circuit at the evaluator, it either fails in the first    *)
(* cycle with a different number of tables than it needs, or needed them all.  *)
Counted == (B.part = "done" /\ B.rc = 0 /\ S.cb # C) =>
   \A i \in 1..Len(chAB.log) : chAB.log[i].k = "tables" =>
      Len(chAB.log[i].tabs) <= Cardinality({g \in 1..NGate(C) : S.cb.gates[g].t \in TableTypes})
(* B is at most one cycle ahead (while A still waits for its last share).       *)
InStep == ~broken => B.cyc <= A.cyc + 1

(* The evaluator holds the label of the actual value of every input bit, and   *)
(* nothing it received lets it form the offset R (C08).                        *)
InputLabels == \A i \in 1..Len(B.recv) :
   LET X == B.recv[i] \ {R} IN
   Cardinality(X) = 1 /\ B.recv[i] = Times(AtomBit(CHOOSE k \in X : TRUE), X)
RECURSIVE Reducing(_, _)
Reducing(basis, X) ==      \* basis: sequence of sets with distinct maximal atoms
  IF X = {} THEN X
  ELSE LET top == CHOOSE k \in X : \A j \in X : j <= k
           hit == SelectSeq(basis, LAMBDA Y : Y # {} /\ (CHOOSE k \in Y : \A j \in Y : j <= k) = top)
       IN IF hit = <<>> THEN X ELSE Reducing(basis, XorL(X, hit[1]))
Basis(ls) == FoldLeft(LAMBDA bs, X : LET Y == Reducing(bs, X) IN IF Y = {} THEN bs ELSE Append(bs, Y), <<>>, ls)
\* everything the evaluator knows: labels received and labels of evaluated wires
Known == B.recv \o SelectSeq(B.w.l, LAMBDA X : X # {})
OffsetSecret == LET Y == Reducing(Basis(Known), {R}) IN Y # {}
NoLabelTwice == \A i, j \in 1..Len(B.recv) : i # j => B.recv[i] \ {R} # B.recv[j] \ {R}

(* Every cycle is sent exactly the minimal tables (C07): checked in            *)
(* MCGarbling; here, that the evaluator uses them all is part of Completes.    *)

Emit == Done => PrintT("@@" \o ToJson(
   [sid |-> sid, rc |-> <<A.rc, B.rc>>, n |-> <<A.n, B.n>>,
    ab |-> [i \in 1..Len(chAB.log) |->
             IF chAB.log[i].k = "tables" THEN [k |-> "tables", gids |-> Gids(chAB.log[i].tabs)] ELSE chAB.log[i]],
    ba |-> chBA.log,
    outA |-> IF A.rc = 0 THEN Rendered(A.out, S.mode) ELSE <<>>, outB |-> IF B.rc = 0 THEN Rendered(B.out, S.mode) ELSE <<>>,
    plain |-> IF S.ok THEN Rendered(Truth, S.mode) ELSE <<>>]))

\* the tables sent with the operands' zero-labels, in order
EmitTables == Done => PrintT("@@" \o ToJson(
   [sid |-> sid, tables |-> FoldLeft(LAMBDA acc, m : IF m.k = "tables" THEN acc \o [i \in 1..Len(m.tabs) |->
      [g |-> m.tabs[i].g, cyc |-> m.cyc, a |-> m.tabs[i].a, b |-> m.tabs[i].b, atom |-> GateAtom(C, S.cc, m.cyc, m.tabs[i].g)]] ELSE acc, <<>>, chAB.log)]))

Terminates == <>Done
=============================================================================
