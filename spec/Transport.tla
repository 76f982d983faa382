------------------------------ MODULE Transport ------------------------------
(* The transport: two byte streams between parties 0 and 1.  A script is a     *)
(* sequence of phases; in phase ph party ph.d performs the sends ph.snd while  *)
(* the other one performs the receives ph.rcv.  An operation [k, n] is raw     *)
(* data of n bytes or a number of n bytes, which travels behind its length     *)
(* (four bytes).  Every read and write moves any positive number of bytes that *)
(* fits (partial reads and writes); the connection breaks when Cut.at bytes of *)
(* direction Cut.d were written (Cut.d = 2: never).                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

CONSTANTS Cap, Scripts
FromFile == ndJsonDeserialize(IOEnv.SCRIPTS)

Width(op) == IF op.k = "num" THEN 4 + op.n ELSE op.n
Sum(ops, n) == FoldLeft(LAMBDA a, i : a + Width(ops[i]), 0, [i \in 1..n |-> i])
Total(ops) == Sum(ops, Len(ops))

----------------------------------------------------------------------------
(* The outcome, independent of fragmentation.                                  *)
\* bytes of direction d in the phases before p
Before(s, p, d) == FoldLeft(LAMBDA a, i : IF s.phases[i].d = d THEN a + Total(s.phases[i].snd) ELSE a, 0, [i \in 1..(p - 1) |-> i])
\* the phase in which the connection breaks: 0 at once, beyond the end never
CutPhase(s) ==
  IF s.cut.d = 2 THEN Len(s.phases) + 1
  ELSE IF s.cut.at = 0 THEN 0
  ELSE LET hit == {p \in 1..Len(s.phases) : s.phases[p].d = s.cut.d /\ Before(s, p, s.cut.d) < s.cut.at
                                            /\ s.cut.at <= Before(s, p + 1, s.cut.d)}
       IN IF hit = {} THEN Len(s.phases) + 1 ELSE CHOOSE p \in hit : TRUE
\* bytes of phase p that get through
Through(s, p) ==
  IF p < CutPhase(s) THEN Total(s.phases[p].snd)
  ELSE IF p > CutPhase(s) THEN 0 ELSE s.cut.at - Before(s, p, s.cut.d)
\* which operations of a phase succeed
OpsDone(s, p, ops) == [i \in 1..Len(ops) |-> Width(ops[i]) = 0 \/ Sum(ops, i) <= Through(s, p)]
Expected(s) == [p \in 1..Len(s.phases) |-> [snd |-> OpsDone(s, p, s.phases[p].snd), rcv |-> OpsDone(s, p, s.phases[p].rcv)]]

WellFormedScript(s) ==
  \A p \in 1..Len(s.phases) : LET ph == s.phases[p] IN
    /\ ph.d \in {0, 1} /\ Total(ph.snd) = Total(ph.rcv)
    \* a number is received as a number
    /\ \A i \in 1..Len(ph.snd) : ph.snd[i].k = "num" =>
         \E j \in 1..Len(ph.rcv) : ph.rcv[j] = ph.snd[i] /\ Sum(ph.rcv, j) = Sum(ph.snd, i)

----------------------------------------------------------------------------
(* The behaviour.                                                              *)
VARIABLES sid, S, pos, got, w, r, closed
vars == <<sid, S, pos, got, w, r, closed>>
\* pos[q]: phase, operation and bytes done of party q; got[q]: results so far per phase
Ops(q, p) == IF S.phases[p].d = q THEN S.phases[p].snd ELSE S.phases[p].rcv
Cur(q) == Ops(q, pos[q].p)[pos[q].i]
Active(q) == pos[q].p <= Len(S.phases)
InOp(q) == Active(q) /\ pos[q].i <= Len(Ops(q, pos[q].p))
Sending(q) == S.phases[pos[q].p].d = q

Init == /\ LET all == TLCEval(Scripts) IN \E i \in 1..Len(all) : sid = i /\ S = all[i]
        /\ pos = [q \in {0, 1} |-> [p |-> 1, i |-> 1, b |-> 0]]
        /\ got = [q \in {0, 1} |-> [p \in 1..Len(S.phases) |-> <<>>]]
        /\ w = [d \in {0, 1} |-> 0] /\ r = [d \in {0, 1} |-> 0]
        /\ closed = (S.cut.d # 2 /\ S.cut.at = 0)

Finish(q, ok) == /\ pos' = [pos EXCEPT ![q].i = @ + 1, ![q].b = 0]
                 /\ got' = [got EXCEPT ![q][pos[q].p] = Append(@, ok)]
\* operations of no bytes touch nothing
Zero(q) == InOp(q) /\ Width(Cur(q)) = 0 /\ Finish(q, TRUE) /\ UNCHANGED <<sid, S, w, r, closed>>
NextPhase(q) == /\ Active(q) /\ ~InOp(q)
                /\ pos' = [pos EXCEPT ![q] = [p |-> @.p + 1, i |-> 1, b |-> 0]]
                /\ UNCHANGED <<sid, S, got, w, r, closed>>
Moved(q, n) == IF pos[q].b + n = Width(Cur(q)) THEN Finish(q, TRUE)
               ELSE pos' = [pos EXCEPT ![q].b = @ + n] /\ UNCHANGED got
Write(q) == /\ InOp(q) /\ Width(Cur(q)) > 0 /\ Sending(q)
            /\ IF closed THEN Finish(q, FALSE) /\ UNCHANGED <<w, closed>>
               ELSE \E n \in 1..(Width(Cur(q)) - pos[q].b) :
                      /\ w[q] + n - r[q] <= Cap
                      /\ LET hit == S.cut.d = q /\ w[q] + n >= S.cut.at
                             m == IF hit THEN S.cut.at - w[q] ELSE n
                         IN /\ w' = [w EXCEPT ![q] = @ + m]
                            /\ closed' = hit
                            /\ Moved(q, m)
            /\ UNCHANGED <<sid, S, r>>
Read(q) == /\ InOp(q) /\ Width(Cur(q)) > 0 /\ ~Sending(q)
           /\ LET d == 1 - q IN
              IF r[d] < w[d]
              THEN \E n \in 1..(Width(Cur(q)) - pos[q].b) :
                     r[d] + n <= w[d] /\ r' = [r EXCEPT ![d] = @ + n] /\ Moved(q, n)
              ELSE closed /\ Finish(q, FALSE) /\ UNCHANGED r
           /\ UNCHANGED <<sid, S, w, closed>>
Done == ~Active(0) /\ ~Active(1)
Party(q) == Zero(q) \/ NextPhase(q) \/ Write(q) \/ Read(q)
Next == Party(0) \/ Party(1) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Party(0)) /\ WF_vars(Party(1))

WellFormedScripts == WellFormedScript(S)
Fifo == \A d \in {0, 1} : r[d] <= w[d] /\ w[d] - r[d] <= Cap
(* Whatever the fragmentation, the results are the expected ones.              *)
Outcome == Done => \A p \in 1..Len(S.phases) :
   LET d == S.phases[p].d IN got[d][p] = Expected(S)[p].snd /\ got[1 - d][p] = Expected(S)[p].rcv
(* A successful receive returns the bytes sent at its place: all earlier ones  *)
(* were received, none was skipped.                                            *)
InOrder == \A q \in {0, 1} : InOp(q) /\ ~Sending(q) =>
   r[1 - q] <= Before(S, pos[q].p, 1 - q) + Sum(Ops(q, pos[q].p), pos[q].i - 1) + pos[q].b
Terminates == <>Done

EmitExpected == PrintT("@@" \o ToJson([sid |-> sid, exp |-> Expected(S)]))
Still == UNCHANGED vars
SpecExpected == Init /\ [][Still]_vars
=============================================================================
