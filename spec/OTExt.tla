-------------------------------- MODULE OTExt ---------------------------------
(* OT extension: n transfers out of K base transfers, in which the parties     *)
(* swap roles.  The receiver offers, for every column c of a random n x K bit  *)
(* matrix T, the column and the column xor its selection bits; the sender      *)
(* selects by its secret bits s and so holds Q.  Pair i is masked by           *)
(* H(i, Q[i]) and H(i, Q[i] xor s).  The base transfer is that of OT.tla; the  *)
(* hash is a free constructor.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANTS K, Free, Cases
FromFile == ndJsonDeserialize(IOEnv.CASES)
\* every case of up to three pairs with messages 0..1
Small == LET all(n) == SetToSeq({[n |-> n, sel |-> s, m |-> m] : s \in [1..n -> {0, 1}], m \in [1..n -> {<<0, 1>>, <<1, 1>>}]})
         IN all(0) \o all(1) \o all(2)

X(a, b) == (a + b) % 2
XorRow(a, b) == [i \in DOMAIN a |-> X(a[i], b[i])]

VARIABLES cid, c, T, s, base, Q, y, got
vars == <<cid, c, T, s, base, Q, y, got>>
Mats(n) == [1..n -> [1..K -> {0, 1}]]
Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : cid = i /\ c = all[i]
        /\ IF Free THEN T \in Mats(c.n) ELSE T = [i \in 1..c.n |-> [k \in 1..K |-> ((i * i + 3 * k * i + k) \div 2) % 2]]
        /\ IF Free THEN s \in [1..K -> {0, 1}] ELSE s = [k \in 1..K |-> k % 2]
        /\ base = <<>> /\ Q = <<>> /\ y = <<>> /\ got = <<>>
Col(M, k) == [i \in 1..c.n |-> M[i][k]]
Cols(M, r, k) == << Col(M, k), XorRow(Col(M, k), r) >>          \* what base transfer k offers
Transfer == /\ base = <<>>                                      \* the K base transfers
            /\ base' = [k \in 1..K |-> Cols(T, c.sel, k)]
            /\ Q' = [i \in 1..c.n |-> [k \in 1..K |-> base'[k][s[k] + 1][i]]]
            /\ UNCHANGED <<cid, c, T, s, y, got>>
H(i, row) == <<i, row>>
Send == /\ base # <<>> /\ y = <<>>
        /\ y' = <<[i \in 1..c.n |-> << [mask |-> H(i, Q[i]), m |-> c.m[i][1]], [mask |-> H(i, XorRow(Q[i], s)), m |-> c.m[i][2]] >>]>>
        /\ UNCHANGED <<cid, c, T, s, base, Q, got>>
Unmask(r, key) == IF r.mask = key THEN r.m ELSE -1
Open == /\ y # <<>> /\ got = <<>>
        /\ got' = <<[i \in 1..c.n |-> Unmask(y[1][i][c.sel[i] + 1], H(i, T[i]))]>>
        /\ UNCHANGED <<cid, c, T, s, base, Q, y>>
Done == got # <<>>
Next == Transfer \/ Send \/ Open \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Transfer \/ Send \/ Open)
Finishes == <>Done

Delivered == Done => got[1] = [i \in 1..c.n |-> c.m[i][c.sel[i] + 1]]
(* Traffic: K base transfers and two masked blocks per pair.                   *)
Traffic == y # <<>> => Len(base) = K /\ Len(y[1]) = c.n
(* The two columns offered by every base transfer differ exactly in the        *)
(* selection bits.                                                             *)
Correlated == base # <<>> => \A k \in 1..K : XorRow(base[k][1], base[k][2]) = c.sel
(* The sender's view (s and Q) is explained by every selection vector, by      *)
(* exactly one matrix each.                                                    *)
ChoiceHidden == Free /\ base # <<>> =>
   \A r \in [1..c.n -> {0, 1}] : Cardinality({M \in Mats(c.n) : \A i \in 1..c.n : \A k \in 1..K : X(M[i][k], s[k] * r[i]) = Q[i][k]}) = 1
(* The message not selected is masked by a value the receiver cannot form      *)
(* without s, and no mask is used twice.                                       *)
OtherHidden == y # <<>> /\ (\E k \in 1..K : s[k] = 1) => \A i \in 1..c.n :
   /\ y[1][i][2 - c.sel[i]].mask # H(i, T[i])
   /\ \A j \in 1..c.n : i # j => \A a, b \in 1..2 : y[1][i][a].mask # y[1][j][b].mask
Emit == Done => PrintT("@@" \o ToJson([cid |-> cid, n |-> c.n, base |-> Len(base), blocks |-> 2 * Len(y[1]), got |-> got[1]]))
===============================================================================
