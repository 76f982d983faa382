------------------------------- MODULE Session -------------------------------
(* The two-party protocol: garbler A and evaluator B, two FIFO channels.       *)
(*                                                                             *)
(* One action per protocol message sent or received, plus one per garbled or   *)
(* evaluated cycle.  A channel is the log of everything sent plus the number   *)
(* of messages consumed, so the log at the end is the wire content the         *)
(* implementation must produce.  The connection may break at any moment        *)
(* (Break), after which sends fail and receives fail once the channel is empty.*)
(*                                                                             *)
(* Sessions is a sequence of records                                           *)
(*  [c, x, cc, period, mask, low, noot]  (circuit, inputs, cycle count, ...)   *)
(* from which the initial state picks one.                                     *)
EXTENDS Garbling, Render, TLC, Json

CONSTANTS Cap,          \* messages in flight per direction; 0 for no limit
          CanBreak,     \* whether the connection may break
          Canonical,    \* TRUE: one fixed interleaving (B runs only while A waits)
          ExtLen        \* more than this many transfers are done by OT extension
CONSTANT Sessions       \* sequence of sessions

VARIABLES sid, S,       \* index and record of the session; S also has its fan-outs and clear-text run
          A, B, chAB, chBA, broken
vars == <<sid, S, A, B, chAB, chBA, broken>>

(* Numbers are written in hexadecimal; a session may list texts of its numbers *)
(* as the values of their digits, where 16 is any other character.             *)
IsNumber(t) == \A i \in 1..Len(t) : t[i] \in 0..15
(* A session may also say readable = FALSE (a party cannot read the circuit    *)
(* description, or it is the meaningless one d), or give the evaluator a circuit of the same shape with other  *)
(* gates, c2 (the parties mean different circuits).                            *)
Readable(s) == /\ "readable" \in DOMAIN s => s.readable
               /\ "d" \in DOMAIN s => Addressed(s.d)
               /\ "texts" \in DOMAIN s => \A i \in 1..Len(s.texts) : IsNumber(s.texts[i])
Executable(s) == s.cc > 0 /\ Readable(s) /\ (s.period > 0 => s.c.term > 0)
CircuitB(s) == IF "c2" \in DOMAIN s THEN s.c2 ELSE s.c

Prepared(s) == [c |-> s.c, x |-> s.x, cc |-> s.cc, period |-> s.period, mask |-> s.mask, low |-> s.low,
                noot |-> s.noot, mode |-> s.mode, fan0 |-> Fan0(s.c), ok |-> Executable(s),
                cb |-> CircuitB(s), fan0b |-> Fan0(CircuitB(s)), truth |-> Run(s.c, s.x, s.cc, s.period)]
C == S.c
Truth == S.truth
Low == S.low /\ S.cc > 1          \* low-memory mode applies to several cycles only

Empty == [log |-> <<>>, r |-> 0]
InFlight(ch) == Len(ch.log) - ch.r
CanSend(ch) == Cap = 0 \/ InFlight(ch) < Cap
Has(ch) == ch.r < Len(ch.log)
Next1(ch) == ch.log[ch.r + 1]
Push(ch, m) == [ch EXCEPT !.log = Append(@, m)]
Pop(ch) == [ch EXCEPT !.r = @ + 1]

NoWires == [v |-> <<>>, l |-> <<>>]

\* number of labels transferred obliviously in one go
OTCount == IF Low THEN 0 ELSE C.ei + S.cc * C.ex

----------------------------------------------------------------------------
(* The order of the phases.  phase is one of                                   *)
(*  "key" "ginit" "gin" "einit" "ein" "garble" "tables" "term" "outs" "done"   *)
(* and sub counts the steps inside a phase.                                    *)
StartPhases == IF Low THEN <<"key","ginit","einit">> ELSE <<"key","ginit","gin","einit","ein">>
CyclePhases(who) ==
  LET work == IF who = "A" THEN <<"garble","tables">> ELSE <<"tables","evaluate">>
  IN IF Low THEN <<"gin","ein">> \o work \o <<"outs","term">> ELSE work \o <<"term">>
EndPhases   == IF Low THEN <<>> ELSE <<"outs">>

(* The evaluator's bits and labels per transfer group.  A group is a sequence  *)
(* of atoms; the zero-label of atom k is {k}.                                  *)
GInitAtoms == [i \in 1..C.gi |-> InitAtom(C, i - 1)]
EInitAtoms == [i \in 1..C.ei |-> InitAtom(C, C.gi + i - 1)]
GInAtoms(cyc) == [i \in 1..C.gx |-> InputAtom(C, cyc, i - 1)]
EInAtoms(cyc) == [i \in 1..C.ex |-> InputAtom(C, cyc, C.gx + i - 1)]
RECURSIVE AllCycles(_, _)
AllCycles(F(_), n) == IF n = 0 THEN <<>> ELSE AllCycles(F, n - 1) \o F(n - 1)
GInGroup(cyc) == IF Low THEN GInAtoms(cyc) ELSE AllCycles(GInAtoms, S.cc)
EInGroup(cyc) == IF Low THEN EInAtoms(cyc) ELSE AllCycles(EInAtoms, S.cc)

(* Truth value of an input atom.                                               *)
AtomBit(k) ==
  IF k < 1 + NSecInit(C) THEN
    LET i == k - 1 IN IF i < C.gi THEN Bit(S.x.ginit, i) ELSE Bit(S.x.einit, i - C.gi)
  ELSE LET j == k - 1 - NSecInit(C)
           cyc == j \div NSecIn(C)
           i == j % NSecIn(C)
       IN IF i < C.gx THEN Bit(S.x.gin, cyc * C.gx + i) ELSE Bit(S.x.ein, cyc * C.ex + i - C.gx)
OwnLabels(atoms) == [i \in 1..Len(atoms) |-> Times(AtomBit(atoms[i]), {atoms[i]})]

\* oblivious transfer of a group: messages in order, with direction
\* base: A pub, B req, A rep.  extension: B pub, A req, B rep, A ext.
OTSteps(n) ==
  IF n > ExtLen THEN << [d |-> "BA", k |-> "otpub", n |-> ExtLen], [d |-> "AB", k |-> "otreq", n |-> ExtLen],
                        [d |-> "BA", k |-> "otrep", n |-> ExtLen], [d |-> "AB", k |-> "otext", n |-> n] >>
  ELSE IF n > 0 THEN << [d |-> "AB", k |-> "otpub", n |-> n], [d |-> "BA", k |-> "otreq", n |-> n],
                        [d |-> "AB", k |-> "otrep", n |-> n] >>
  ELSE IF Low THEN <<>> ELSE << [d |-> "AB", k |-> "otpub", n |-> 0] >>

(* Messages of a phase: sequence of [d, k, ...].  Only "term" and "outs" depend *)
(* on garbled values and are treated separately.                               *)
PhaseSteps(ph, cyc) ==
  CASE ph = "key"   -> << [d |-> "AB", k |-> "key", n |-> 1] >>
    [] ph = "ginit" -> IF C.gi > 0 THEN << [d |-> "AB", k |-> "own", n |-> C.gi] >> ELSE <<>>
    [] ph = "gin"   -> IF Len(GInGroup(cyc)) > 0 THEN << [d |-> "AB", k |-> "own", n |-> Len(GInGroup(cyc))] >> ELSE <<>>
    [] ph = "einit" -> IF S.noot THEN << [d |-> "BA", k |-> "bits", n |-> 1] >>
                                      \o (IF C.ei > 0 THEN << [d |-> "AB", k |-> "asked", n |-> C.ei] >> ELSE <<>>)
                       ELSE IF Low THEN OTSteps(C.ei) ELSE <<>>
    [] ph = "ein"   -> IF S.noot THEN << [d |-> "BA", k |-> "bits", n |-> 1] >>
                                      \o (IF Len(EInGroup(cyc)) > 0 THEN << [d |-> "AB", k |-> "asked", n |-> Len(EInGroup(cyc))] >> ELSE <<>>)
                       ELSE IF Low THEN OTSteps(C.ex) ELSE OTSteps(OTCount)
    [] OTHER -> <<>>

----------------------------------------------------------------------------
(* Program counter: part ("start", "cycle", "end"), position in its phase list, *)
(* step inside the phase.                                                      *)
PhaseList(p) == CASE p.part = "start" -> StartPhases [] p.part = "cycle" -> CyclePhases(p.who) [] p.part = "end" -> EndPhases [] OTHER -> <<>>
Phase(p) == IF p.part = "done" THEN "done" ELSE PhaseList(p)[p.pos]

\* steps of the phase p is in, for the party with wires w
TermVal(w) == w.v[C.term + 1]
TermDue(p) == S.period > 0 /\ C.term > 0 /\ p.cyc % S.period = 0
OutVal(w, i) == w.v[C.out[i] + 1]
OutLab(w, i) == w.l[C.out[i] + 1]
BobOwns(i) == Bit(S.mask, i - 1) = 0

\* secret outputs to be exchanged now: sequence of [c, i] (cycle, output index)
OutItems(p) ==
  LET cycles == IF Low THEN << p.cyc >> ELSE [k \in 1..p.n |-> k - 1]
  IN FoldLeft(LAMBDA acc, cy :
        acc \o SelectSeq([i \in 1..NOut(C) |-> [c |-> cy, i |-> i]],
                         LAMBDA o : IsSecret(p.osh[cy + 1][o.i].v)),
        <<>>, cycles)

StepsOf(p) ==
  CASE Phase(p) \in {"garble", "evaluate"} -> << [d |-> "local", k |-> Phase(p), n |-> 0] >>
    [] Phase(p) = "tables" -> << [d |-> "AB", k |-> "tables", n |-> 0] >>
    [] Phase(p) = "term" ->
         IF TermDue(p) /\ IsSecret(TermVal(p.w))
         THEN << [d |-> "AB", k |-> "lsb", n |-> 0], [d |-> "BA", k |-> "lsb", n |-> 0] >> ELSE <<>>
    [] Phase(p) = "outs" ->
         LET it == OutItems(p) IN
         [j \in 1..Len(it) |-> [d |-> IF BobOwns(it[j].i) THEN "AB" ELSE "BA", k |-> "olsb", n |-> 0]]
    [] OTHER -> PhaseSteps(Phase(p), p.cyc)

\* end of a cycle: stop or go on
Stops(p) == p.stop \/ p.cyc + 1 = S.cc

\* moves p to its next step, skipping phases without steps
RECURSIVE Settle(_)
Settle(p) ==
  IF p.part = "done" THEN p
  ELSE IF p.pos > Len(PhaseList(p)) THEN
    CASE p.part = "start" -> Settle([p EXCEPT !.part = "cycle", !.pos = 1, !.sub = 1])
      [] p.part = "cycle" -> IF Stops(p) THEN Settle([p EXCEPT !.part = "end", !.pos = 1, !.sub = 1, !.n = p.cyc + 1])
                             ELSE Settle([p EXCEPT !.cyc = @ + 1, !.pos = 1, !.sub = 1, !.n = p.cyc + 1])
      [] p.part = "end" -> [p EXCEPT !.part = "done"]
  ELSE IF p.sub = 1 /\ Phase(p) = "term" /\ TermDue(p) /\ ~IsSecret(TermVal(p.w)) /\ TermVal(p.w) = 1 /\ ~p.stop
       THEN Settle([p EXCEPT !.stop = TRUE])
  ELSE IF p.sub <= Len(StepsOf(p)) THEN p
  ELSE Settle([p EXCEPT !.pos = @ + 1, !.sub = 1])

Advance(p) == Settle([p EXCEPT !.sub = @ + 1])
Step(p) == StepsOf(p)[p.sub]

Start(who) == [who |-> who, last |-> TRUE, part |-> "start", pos |-> 1, sub |-> 1, cyc |-> 0, n |-> 0, stop |-> FALSE,
          w |-> NoWires, tabs |-> <<>>, osh |-> <<>>, out |-> <<>>, rc |-> 0,
          bits |-> <<>>,        \* A: bits received without OT
          recv |-> <<>>]        \* B: labels received so far, in protocol order
(* A party that is done with its last session (MCHistory.tla has more than one) *)
(* has left.                                                                   *)
Gone(p) == p.part = "done" /\ p.last
Fail(p) == [p EXCEPT !.part = "done", !.rc = -1, !.out = <<>>, !.w = NoWires]

(* Parties with different circuits may get out of step; a party that reads     *)
(* something else than it expects has an unspecified result (rc = 1).          *)
Fits(st, m) == m.k = (CASE st.k \in {"own", "asked"} -> "labels" [] st.k = "olsb" -> "lsb" [] OTHER -> st.k)
Confused(p) == [Fail(p) EXCEPT !.rc = 1]

Init == /\ LET all == TLCEval(Sessions) IN \E i \in 1..Len(all) : sid = i /\ S = Prepared(all[i])
        /\ A = IF S.ok THEN Settle(Start("A")) ELSE Fail(Start("A"))
        /\ B = IF S.ok THEN Settle(Start("B")) ELSE Fail(Start("B"))
        /\ chAB = Empty /\ chBA = Empty
        /\ broken = FALSE

----------------------------------------------------------------------------
(* Outputs: a party's own share, one bit sequence per executed cycle.          *)
ShareOf(p) ==             \* publicly known bits go to their owner without traffic
  [i \in 1..NOut(C) |-> LET o == p.w.v[C.out[i] + 1] IN
     IF ~IsSecret(o) /\ (BobOwns(i) <=> p.who = "B") THEN o ELSE 0]
OshOf(p) == [i \in 1..NOut(C) |-> [v |-> OutVal(p.w, i), l |-> OutLab(p.w, i)]]

AfterCycle(p, w) ==  \* wires of the cycle are final
  LET q == [p EXCEPT !.w = [v |-> w.v, l |-> w.l]] IN
  [q EXCEPT !.osh = Append(@, OshOf(q)), !.out = Append(@, ShareOf(q))]

(* ------------------------------ garbler ------------------------------------ *)
AGarble ==
  /\ A.part # "done" /\ Step(A).k = "garble"
  /\ LET gc == GarbleCycle(C, S.fan0, S.x, S.cc, A.cyc, A.w)
         q == AfterCycle(A, gc)
     IN A' = Advance([q EXCEPT !.tabs = Sent(gc)])
  /\ UNCHANGED <<sid, S, B, chAB, chBA, broken>>

ASend ==
  /\ A.part # "done" /\ Step(A).d = "AB"
  /\ IF broken THEN A' = Fail(A) /\ UNCHANGED chAB
     ELSE /\ CanSend(chAB)
          /\ LET st == Step(A)
                 grp == CASE Phase(A) = "ginit" -> GInitAtoms [] Phase(A) = "gin" -> GInGroup(A.cyc)
                          [] Phase(A) = "einit" -> EInitAtoms [] Phase(A) = "ein" -> EInGroup(A.cyc) [] OTHER -> <<>>
                 otgrp == IF Low THEN grp ELSE EInitAtoms \o EInGroup(0)
                 asked == [i \in 1..Len(grp) |-> Times(Bit(A.bits, (IF Low /\ Phase(A) = "ein" THEN A.cyc * C.ex ELSE 0) + i - 1), {grp[i]})]
                 m == CASE st.k = "key"   -> [k |-> "key"]
                        [] st.k = "own"   -> [k |-> "labels", ls |-> OwnLabels(grp)]
                        [] st.k = "asked" -> [k |-> "labels", ls |-> asked]
                        [] st.k = "otpub" -> [k |-> "otpub", n |-> st.n]
                        [] st.k = "otreq" -> [k |-> "otreq", n |-> st.n]
                        \* the masked pairs; which one opens is B's choice
                        [] st.k \in {"otrep", "otext"} ->
                             [k |-> st.k, n |-> st.n, pairs |-> [i \in 1..Len(otgrp) |-> {otgrp[i]}]]
                        [] st.k = "tables" -> [k |-> "tables", cyc |-> A.cyc, tabs |-> A.tabs]
                        [] st.k = "lsb"   -> [k |-> "lsb", l |-> A.w.l[C.term + 1]]
                        [] st.k = "olsb"  -> LET o == OutItems(A)[A.sub] IN [k |-> "lsb", l |-> A.osh[o.c + 1][o.i].l]
             IN chAB' = Push(chAB, m) /\ A' = Advance(A)
  /\ UNCHANGED <<sid, S, B, chBA, broken>>

ARecv ==
  /\ A.part # "done" /\ Step(A).d = "BA"
  /\ IF Has(chBA) THEN
       LET m == Next1(chBA)
           st == Step(A)
       IN /\ chBA' = Pop(chBA)
          /\ A' = CASE ~Fits(st, m) -> Confused(A)
                    [] st.k = "bits" -> Advance([A EXCEPT !.bits = m.v])
                    [] st.k = "lsb"  -> Advance([A EXCEPT !.stop = (m.l # A.w.l[C.term + 1])])
                    [] st.k = "olsb" -> LET o == OutItems(A)[A.sub]
                                            b == IF m.l = A.osh[o.c + 1][o.i].l THEN 0 ELSE 1
                                        IN Advance([A EXCEPT !.out[o.c + 1][o.i] = b])
                    [] OTHER -> Advance(A)
     ELSE (broken \/ Gone(B)) /\ A' = Fail(A) /\ UNCHANGED chBA
  /\ UNCHANGED <<sid, S, B, chAB, broken>>

(* ----------------------------- evaluator ----------------------------------- *)
\* B's labels by position: those of the initial bits and of cycle cyc
InitLabs == SubSeq(B.recv, 1, NSecInit(C))   \* low-memory mode: they come first
HighInit == SubSeq(B.recv, 1, C.gi) \o SubSeq(B.recv, C.gi + S.cc * C.gx + 1, C.gi + S.cc * C.gx + C.ei)
CycLabs(cyc) ==
  IF Low THEN SubSeq(B.recv, NSecInit(C) + cyc * NSecIn(C) + 1, NSecInit(C) + (cyc + 1) * NSecIn(C))
  ELSE LET e0 == C.gi + S.cc * C.gx + C.ei IN
       SubSeq(B.recv, C.gi + cyc * C.gx + 1, C.gi + (cyc + 1) * C.gx)
       \o SubSeq(B.recv, e0 + cyc * C.ex + 1, e0 + (cyc + 1) * C.ex)

BEval ==
  /\ B.part # "done" /\ Step(B).k = "evaluate"
  /\ LET ec == EvalCycle(S.cb, S.fan0b, S.x, S.cc, B.cyc, B.w, IF Low THEN InitLabs ELSE HighInit, CycLabs(B.cyc), B.tabs)
         bad == ec.used # Len(B.tabs) \/ Needed(S.cb, ec) # Len(B.tabs)     \* tables left over or missing
     IN /\ B' = IF bad THEN Fail(B) ELSE Advance(AfterCycle(B, ec))
        /\ broken' = (broken \/ bad)                  \* a party that gives up closes the connection
  /\ UNCHANGED <<sid, S, A, chAB, chBA>>

BRecv ==
  /\ B.part # "done" /\ Step(B).d = "AB"
  /\ IF Has(chAB) THEN
       LET m == Next1(chAB)
           st == Step(B)
           grp == IF Phase(B) = "einit" THEN EInitAtoms ELSE EInGroup(B.cyc)
           chosen == [i \in 1..Len(m.pairs) |-> Times(AtomBit((IF Low THEN grp ELSE EInitAtoms \o EInGroup(0))[i]), m.pairs[i])]
       IN /\ chAB' = Pop(chAB)
          /\ B' = CASE ~Fits(st, m) -> Confused(B)
                    [] st.k = "tables" -> Advance([B EXCEPT !.tabs = m.tabs])
                    [] st.k \in {"own", "asked"} -> Advance([B EXCEPT !.recv = @ \o m.ls])
                    [] st.k \in {"otrep", "otext"} -> Advance([B EXCEPT !.recv = @ \o chosen])
                    [] st.k = "lsb"  -> Advance([B EXCEPT !.stop = FALSE, !.bits = <<IF m.l = B.w.l[C.term + 1] THEN 0 ELSE 1>>])
                    [] st.k = "olsb" -> LET o == OutItems(B)[B.sub]
                                            b == IF m.l = B.osh[o.c + 1][o.i].l THEN 0 ELSE 1
                                        IN Advance([B EXCEPT !.out[o.c + 1][o.i] = b])
                    [] OTHER -> Advance(B)
     ELSE (broken \/ Gone(A)) /\ B' = Fail(B) /\ UNCHANGED chAB
  /\ UNCHANGED <<sid, S, A, chBA, broken>>

BSend ==
  /\ B.part # "done" /\ Step(B).d = "BA"
  /\ IF broken THEN B' = Fail(B) /\ UNCHANGED chBA
     ELSE /\ CanSend(chBA)
          /\ LET st == Step(B)
                 m == CASE st.k = "bits" -> [k |-> "bits", v |-> IF Phase(B) = "einit" THEN S.x.einit ELSE S.x.ein]
                        [] st.k \in {"otpub", "otreq", "otrep"} -> [k |-> st.k, n |-> st.n]
                        [] st.k = "lsb"  -> [k |-> "lsb", l |-> B.w.l[C.term + 1]]
                        [] st.k = "olsb" -> LET o == OutItems(B)[B.sub] IN [k |-> "lsb", l |-> B.osh[o.c + 1][o.i].l]
             IN /\ chBA' = Push(chBA, m)
                /\ B' = IF st.k = "lsb" THEN Advance([B EXCEPT !.stop = (B.bits = <<1>>)]) ELSE Advance(B)
  /\ UNCHANGED <<sid, S, A, chAB, broken>>

Break == CanBreak /\ ~broken /\ broken' = TRUE /\ UNCHANGED <<sid, S, A, B, chAB, chBA>>

Done == A.part = "done" /\ B.part = "done"
AStep == AGarble \/ ASend \/ ARecv
BStep == BEval \/ BRecv \/ BSend
Next == \/ AStep
        \/ (IF Canonical THEN ~ENABLED AStep ELSE TRUE) /\ BStep
        \/ Break
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(AStep) /\ WF_vars(BStep)
=============================================================================
