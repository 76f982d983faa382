---------------------------------- MODULE OT ----------------------------------
(* 1-out-of-2 oblivious transfer of n pairs, RSA based:                        *)
(*   sender   -> n, key (N, E), x[i][0], x[i][1]                               *)
(*   receiver -> v[i] = x[i][b] + k[i]^E  (mod N)                              *)
(*   sender   -> m[i][j] + (v[i] - x[i][j])^D mod N     for both j             *)
(*   receiver:  result m'[i][b] - k[i]                                         *)
(* with a toy key, for which every value of every random choice is tried       *)
(* (Free), or with one choice per index (~Free, for long transfers).           *)
(* A case is [n, nr, sel, m]: pairs offered, pairs the receiver expects,       *)
(* selection bits, messages (numbers).                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANTS N, E, D, XMax, Free, Cases
FromFile == ndJsonDeserialize(IOEnv.CASES)
\* every case of up to two pairs with messages 0..2
Small == LET M == {<<a, b>> : a, b \in 0..2}
             all(n) == SetToSeq({[n |-> n, nr |-> nr, sel |-> s, m |-> m] : nr \in 0..2, s \in [1..2 -> {0, 1}], m \in [1..n -> M]})
             ok(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.sel = SubSeq(@, 1, q[i].nr)]]
         IN ok(all(0)) \o ok(all(1)) \o ok(all(2))
Single == SetToSeq({[n |-> 1, nr |-> 1, sel |-> <<s>>, m |-> <<m>>] : s \in {0, 1}, m \in {<<a, b>> : a, b \in 0..3}})

RECURSIVE PowMod(_, _)
PowMod(a, e) == IF e = 0 THEN 1 % N ELSE (a * PowMod(a, e - 1)) % N
Enc(k) == PowMod(k % N, E)
Dec(v) == PowMod(v % N, D)
EncT == TLCEval([k \in 0..(N - 1) |-> Enc(k)])
DecT == TLCEval([k \in 0..(N - 1) |-> Dec(k)])
ASSUME RsaInverts == \A k \in 0..(N - 1) : Dec(Enc(k)) = k /\ Enc(Dec(k)) = k

VARIABLES cid, c, snd, rcv, ab, ba
vars == <<cid, c, snd, rcv, ab, ba>>

Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : cid = i /\ c = all[i]
        /\ snd = [pc |-> "offer"] /\ rcv = [pc |-> "wait", k |-> <<>>, got |-> <<>>]
        /\ ab = <<>> /\ ba = <<>>

Offers == IF Free THEN [1..c.n -> {<<a, b>> : a, b \in 0..XMax}]
          ELSE {[i \in 1..c.n |-> <<(5 * i + 2) % (XMax + 1), (11 * i * i + 3) % (XMax + 1)>>]}
Keys == IF Free THEN [1..c.nr -> 0..(N - 1)] ELSE {[i \in 1..c.nr |-> (7 * i + 4) % N]}

Offer == /\ snd.pc = "offer"
         /\ \E x \in Offers : ab' = Append(ab, [k |-> "pub", n |-> c.n, x |-> x])
         /\ snd' = [pc |-> "reply"]
         /\ UNCHANGED <<cid, c, rcv, ba>>
Request == /\ rcv.pc = "wait" /\ ab # <<>>
           /\ LET o == ab[1] IN
              IF o.n # c.nr THEN rcv' = [rcv EXCEPT !.pc = "failed"] /\ UNCHANGED ba
              ELSE \E k \in Keys :
                     /\ rcv' = [rcv EXCEPT !.pc = "open", !.k = k]
                     /\ ba' = <<[i \in 1..c.nr |-> (o.x[i][c.sel[i] + 1] + EncT[k[i]]) % N]>>
           /\ UNCHANGED <<cid, c, snd, ab>>
Mask(v, x) == DecT[(v - x) % N]
Reply == /\ snd.pc = "reply" /\ (ba # <<>> \/ c.n = 0)
         /\ ab' = Append(ab, [k |-> "rep", y |-> [i \in 1..c.n |-> [j \in 1..2 |-> c.m[i][j] + Mask(ba[1][i], ab[1].x[i][j])]]])
         /\ snd' = [pc |-> "done"]
         /\ UNCHANGED <<cid, c, rcv, ba>>
Lost == snd.pc = "reply" /\ c.n > 0 /\ rcv.pc = "failed" /\ snd' = [pc |-> "failed"] /\ UNCHANGED <<cid, c, rcv, ab, ba>>
Open == /\ rcv.pc = "open" /\ Len(ab) = 2
        /\ rcv' = [rcv EXCEPT !.pc = "done", !.got = [i \in 1..c.nr |-> ab[2].y[i][c.sel[i] + 1] - rcv.k[i]]]
        /\ UNCHANGED <<cid, c, snd, ab, ba>>
Done == snd.pc \in {"done", "failed"} /\ rcv.pc \in {"done", "failed"}
Next == Offer \/ Request \/ Reply \/ Lost \/ Open \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Offer \/ Request \/ Reply \/ Lost \/ Open)

(* The receiver gets exactly the selected messages, or fails.                  *)
Selected == [i \in 1..c.nr |-> c.m[i][c.sel[i] + 1]]
Delivered == rcv.pc = "done" => c.n = c.nr /\ rcv.got = Selected
Refused == Done => (rcv.pc = "failed" <=> c.n # c.nr) /\ (snd.pc = "failed" <=> c.n # c.nr /\ c.n > 0)
Finishes == <>Done
(* What every transcript satisfies, whatever the choices: both replies fit the *)
(* request.  Checked on recorded transfers.                                    *)
Fits == Len(ab) = 2 => \A i \in 1..c.n : \A j \in 1..2 :
   LET k == ab[2].y[i][j] - c.m[i][j] IN k \in 0..(N - 1) /\ (ab[1].x[i][j] + EncT[k]) % N = ba[1][i]
(* The request says nothing about the bit: each bit explains it by equally     *)
(* many k.                                                                     *)
ChoiceHidden == ba # <<>> => \A i \in 1..c.n :
   LET ways(j) == Cardinality({k \in 0..(N - 1) : (ab[1].x[i][j] + EncT[k]) % N = ba[1][i]})
   IN ba[1][i] \in 0..(N - 1) /\ ways(1) = ways(2)
(* The receiver's k opens the other reply only if the sender's two values are  *)
(* the same.                                                                   *)
OtherHidden == Len(ab) = 2 => \A i \in 1..c.n :
   (ab[1].x[i][1] % N # ab[1].x[i][2] % N) <=> (Mask(ba[1][i], ab[1].x[i][1]) # Mask(ba[1][i], ab[1].x[i][2]))
(* The mask hides a message only while it is longer than the message: replies  *)
(* of messages N or more apart are never the same (why extension columns must  *)
(* be shorter than the modulus).                                               *)
Replies(m) == {m + k : k \in 0..(N - 1)}
ASSUME MaskLength == \A a \in 0..3 : Replies(a) \cap Replies(a + N) = {}
                     /\ Cardinality(Replies(a) \cap Replies(a + 1)) = N - 1

Emit == Done => PrintT("@@" \o ToJson([cid |-> cid, c |-> c, rc |-> <<IF snd.pc = "done" THEN 0 ELSE -1, IF rcv.pc = "done" THEN 0 ELSE -1>>, got |-> rcv.got]))
===============================================================================
