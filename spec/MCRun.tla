------------------------------- MODULE MCRun -------------------------------
(* Only the expected results of sessions: the clear-text run, the parties'     *)
(* shares and their rendering.  For circuits too large for the full protocol.  *)
EXTENDS Circuit, Render, TLC, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.SESSIONS)
CONSTANT Sessions
VARIABLES sid, S
Init == LET all == TLCEval(Sessions) IN \E i \in 1..Len(all) : sid = i /\ S = all[i]
Next == UNCHANGED <<sid, S>>
Spec == Init /\ [][Next]_<<sid, S>>

WellFormedSession == WellFormed(S.c)
(* Splitting a run by the mask loses nothing: the shares have disjoint ones    *)
(* and recombine to the run.                                                   *)
SharesRecombine ==
  LET run == Run(S.c, S.x, S.cc, S.period)
      a == Share(run, S.mask, "A")
      b == Share(run, S.mask, "B")
  IN \A cy \in 1..Len(run) : \A i \in 1..Len(run[cy]) :
       a[cy][i] + b[cy][i] = run[cy][i]
Emit == LET run == Run(S.c, S.x, S.cc, S.period) IN PrintT("@@" \o ToJson(
   [sid |-> sid, n |-> Len(run), outA |-> Rendered(Share(run, S.mask, "A"), S.mode),
    outB |-> Rendered(Share(run, S.mask, "B"), S.mode), plain |-> Rendered(run, S.mode)]))
=============================================================================
