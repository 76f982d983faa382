------------------------------- MODULE MCTrace -------------------------------
(* The plaintext evaluator as a machine: one action per clock cycle, which     *)
(* computes all wires, appends a row to the trace and decides whether to stop. *)
(* A case is [c, x, cc, period, map] with map a sequence of [name, w]: the     *)
(* nets of the description and their positions.  The trace has a row for every *)
(* executed cycle - its number and the value of every net of the map, in map   *)
(* order.                                                                      *)
EXTENDS Circuit, TLC, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Cases
VARIABLES sid, S,
          dff,        \* contents of the flip-flops
          v,          \* all wires in the last cycle
          cyc,        \* cycles executed
          rows, outs, stopped
vars == <<sid, S, dff, v, cyc, rows, outs, stopped>>

Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : sid = i /\ S = all[i]
        /\ dff = FirstDff(S.c, S.x) /\ v = <<>> /\ cyc = 0
        /\ rows = <<>> /\ outs = <<>> /\ stopped = FALSE

Row(w) == [k \in 1..Len(S.map) |-> WireVal(w, S.map[k].w)]
Cycle ==
  /\ ~stopped /\ cyc < S.cc
  /\ LET w == EvalWires(S.c, S.x, cyc, dff) IN
     /\ v' = w
     /\ rows' = Append(rows, Row(w))
     /\ outs' = Append(outs, OutOf(S.c, w))
     /\ dff' = NextDff(S.c, w)
     /\ stopped' = (S.period > 0 /\ S.c.term > 0 /\ cyc % S.period = 0 /\ WireVal(w, S.c.term) = 1)
  /\ cyc' = cyc + 1
  /\ UNCHANGED <<sid, S>>
Done == stopped \/ cyc = S.cc
Next == Cycle \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Cycle)

WellFormedCase == WellFormed(S.c) /\ \A k \in 1..Len(S.map) : S.map[k].w >= DffLo(S.c) /\ S.map[k].w < WireSize(S.c)
(* The machine executes the run of the circuit.                                *)
IsRun == Done => outs = Run(S.c, S.x, S.cc, S.period)
OneRowEach == Len(rows) = cyc /\ cyc <= S.cc
(* Rows explain each other: a flip-flop's net in one row is its next-state     *)
(* wire in the row before; a gate's net is its function of its operands.       *)
Explained == cyc > 0 =>
  /\ \A d \in 1..NDff(S.c) : dff[d] = WireVal(v, S.c.D[d])
  /\ \A g \in 1..NGate(S.c) :
       v[GateLo(S.c) + g] = GateFn(S.c.gates[g].t, WireVal(v, S.c.gates[g].a), IF S.c.gates[g].t = "NOT" THEN 0 ELSE WireVal(v, S.c.gates[g].b))
Terminates == <>Done
Emit == Done => PrintT("@@" \o ToJson([sid |-> sid, n |-> cyc, rows |-> rows, outs |-> outs]))
=============================================================================
