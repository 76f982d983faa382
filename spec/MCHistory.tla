----------------------------- MODULE MCHistory -----------------------------
(* Several sessions, one after the other, between the same two processes and    *)
(* over the same connection.  Each party starts its next session as soon as it  *)
(* is done with the one before; they need not be in the same session.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.HISTORIES)
CONSTANTS Histories,    \* sequence of sequences of sessions
          Cap, Canonical
VARIABLES hid, H,
          iA, iB,       \* which session a party is in
          SA, SB,       \* and what it is
          A, B, chAB, chBA, broken,
          tagAB, tagBA, \* ghosts: the session every message was sent in
          resA, resB    \* results so far
vars == <<hid, H, iA, iB, SA, SB, A, B, chAB, chBA, broken, tagAB, tagBA, resA, resB>>

a == INSTANCE Session WITH S <- SA, sid <- iA, Sessions <- <<>>, CanBreak <- FALSE, ExtLen <- 128
b == INSTANCE Session WITH S <- SB, sid <- iB, Sessions <- <<>>, CanBreak <- FALSE, ExtLen <- 128

Idle(p) == [p EXCEPT !.part = "idle", !.last = FALSE]
Init ==
  /\ LET all == TLCEval(Histories) IN \E i \in 1..Len(all) : hid = i /\ H = [k \in 1..Len(all[i]) |-> a!Prepared(all[i][k])]
  /\ iA = 1 /\ iB = 1 /\ SA = H[1] /\ SB = H[1]
  /\ A = Idle(a!Start("A")) /\ B = Idle(b!Start("B"))
  /\ chAB = a!Empty /\ chBA = a!Empty /\ broken = FALSE
  /\ tagAB = <<>> /\ tagBA = <<>> /\ resA = <<>> /\ resB = <<>>

StartA == /\ A.part = "idle"
          /\ A' = (LET p == [a!Start("A") EXCEPT !.last = (iA = Len(H))] IN IF SA.ok THEN a!Settle(p) ELSE a!Fail(p))
          /\ UNCHANGED <<hid, H, iA, iB, SA, SB, B, chAB, chBA, broken, tagAB, tagBA, resA, resB>>
StartB == /\ B.part = "idle"
          /\ B' = LET p == [b!Start("B") EXCEPT !.last = (iB = Len(H))] IN IF SB.ok THEN b!Settle(p) ELSE b!Fail(p)
          /\ UNCHANGED <<hid, H, iA, iB, SA, SB, A, chAB, chBA, broken, tagAB, tagBA, resA, resB>>
EndA == /\ A.part = "done" /\ Len(resA) < iA
        /\ resA' = Append(resA, [rc |-> A.rc, out |-> A.out])
        /\ IF iA < Len(H) THEN iA' = iA + 1 /\ SA' = H[iA + 1] /\ A' = Idle(A) ELSE UNCHANGED <<iA, SA, A>>
        /\ UNCHANGED <<hid, H, iB, SB, B, chAB, chBA, broken, tagAB, tagBA, resB>>
EndB == /\ B.part = "done" /\ Len(resB) < iB
        /\ resB' = Append(resB, [rc |-> B.rc, out |-> B.out])
        /\ IF iB < Len(H) THEN iB' = iB + 1 /\ SB' = H[iB + 1] /\ B' = Idle(B) ELSE UNCHANGED <<iB, SB, B>>
        /\ UNCHANGED <<hid, H, iA, SA, A, chAB, chBA, broken, tagAB, tagBA, resA>>
RunA == /\ A.part \notin {"idle", "done"} /\ a!AStep
        /\ tagAB' = IF Len(chAB'.log) > Len(chAB.log) THEN Append(tagAB, iA) ELSE tagAB
        /\ UNCHANGED <<hid, H, iB, SB, tagBA, resA, resB>>
RunB == /\ B.part \notin {"idle", "done"} /\ b!BStep
        /\ tagBA' = IF Len(chBA'.log) > Len(chBA.log) THEN Append(tagBA, iB) ELSE tagBA
        /\ UNCHANGED <<hid, H, iA, SA, tagAB, resA, resB>>
AllDone == Len(resA) = Len(H) /\ Len(resB) = Len(H)
StepA == StartA \/ EndA \/ RunA
StepB == StartB \/ EndB \/ RunB
Next == StepA \/ ((IF Canonical THEN ~ENABLED StepA ELSE TRUE) /\ StepB) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(StepA) /\ WF_vars(StepB)

----------------------------------------------------------------------------
(* A party only ever takes a message sent in the session it is in.             *)
OwnMessages == [][(chAB'.r > chAB.r => tagAB[chAB'.r] = iB) /\ (chBA'.r > chBA.r => tagBA[chBA'.r] = iA)]_vars
(* Every session has the result it has on its own, whatever came before it.    *)
Expected(k, who) == LET s == H[k] IN IF s.ok THEN [rc |-> 0, out |-> a!Share(s.truth, s.mask, who)] ELSE [rc |-> -1, out |-> <<>>]
Independent == /\ \A k \in 1..Len(resA) : resA[k] = Expected(k, "A")
               /\ \A k \in 1..Len(resB) : resB[k] = Expected(k, "B")
NeverBroken == ~broken
AllConsumed == AllDone => chAB.r = Len(chAB.log) /\ chBA.r = Len(chBA.log)
Finishes == <>AllDone
Emit == AllDone => PrintT("@@" \o ToJson([hid |-> hid, res |-> [k \in 1..Len(H) |->
          [rc |-> <<resA[k].rc, resB[k].rc>>,
           outA |-> IF resA[k].rc = 0 THEN a!Rendered(resA[k].out, H[k].mode) ELSE <<>>,
           outB |-> IF resB[k].rc = 0 THEN a!Rendered(resB[k].out, H[k].mode) ELSE <<>>]]]))
=============================================================================
