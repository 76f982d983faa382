------------------------------ MODULE MCGarbling ------------------------------
(* Cycle-by-cycle garbling and evaluation of the circuits of a file, for all   *)
(* input and initial bits: garbler, evaluator and clear text side by side.     *)
EXTENDS Garbling, TLC, Json, IOUtils

CONSTANTS Circuits, Cycles
FromFile == ndJsonDeserialize(IOEnv.CIRCUITS)

VARIABLES cid, c, fan0, x, cyc, dff, cv, gw, ew
vars == <<cid, c, fan0, x, cyc, dff, cv, gw, ew>>

Bits(n) == [1..n -> {0, 1}]
NoWires == [v |-> <<>>, l |-> <<>>, fan |-> <<>>, tabs |-> <<>>]

Init == /\ LET all == TLCEval(Circuits) IN \E i \in 1..Len(all) : cid = i /\ c = all[i]
        /\ fan0 = Fan0(c)
        \* inputs are the same in every cycle for the public ones and free for the others
        /\ \E pinit \in Bits(c.pi), ginit \in Bits(c.gi), einit \in Bits(c.ei) :
           \E pin \in Bits(c.px * Cycles), gin \in Bits(c.gx * Cycles), ein \in Bits(c.ex * Cycles) :
             x = [pinit |-> pinit, ginit |-> ginit, einit |-> einit, pin |-> pin, gin |-> gin, ein |-> ein]
        /\ cyc = 0 /\ dff = FirstDff(c, x)
        /\ cv = <<>> /\ gw = NoWires /\ ew = [v |-> <<>>, l |-> <<>>, used |-> 0]

\* labels the evaluator holds: those of the actual bits
InitL == [k \in 1..NSecInit(c) |-> Times(InitBit(c, x, c.pi + k - 1), {InitAtom(c, k - 1)})]
InL   == [k \in 1..NSecIn(c) |-> Times(InputBit(c, x, cyc, c.px + k - 1), {InputAtom(c, cyc, k - 1)})]

Next == /\ cyc < Cycles
        /\ LET v == EvalWires(c, x, cyc, dff)
               g == GarbleCycle(c, fan0, x, Cycles, cyc, gw)
           IN /\ cv' = v /\ dff' = NextDff(c, v)
              /\ gw' = g
              /\ ew' = EvalCycle(c, fan0, x, Cycles, cyc, ew, InitL, InL, Sent(g))
        /\ cyc' = cyc + 1
        /\ UNCHANGED <<cid, c, fan0, x>>
Spec == Init /\ [][Next]_vars

Ran == cyc > 0
WellFormedCircuit == WellFormed(c)
Fanouts == cyc = 0 => FanoutsAgree(c)
(* C01: every used wire is known right, or secret with the right label held.   *)
Agreement == Ran => Agree(c, gw, ew, cv)
(* C07: exactly the needed tables, in gate order, all of them used.  Circuit   *)
(* descriptions are expected to have no gate that nothing uses (FillFanout     *)
(* complains about them); where there is one, its operands count as used.      *)
NoDangling == \A i \in 1..NGate(c) : fan0[i] > 0
Minimal == Ran /\ NoDangling => Gids(Sent(gw)) = MinimalTables(c, gw)
AllUsed == Ran => ew.used = Len(Sent(gw)) /\ Needed(c, ew) = Len(Sent(gw))
Ordered == Ran => \A i \in 1..(Len(Sent(gw)) - 1) : Sent(gw)[i].g < Sent(gw)[i + 1].g
(* C07: gates decided by public values cost nothing: a gate with a public      *)
(* operand has no table.                                                       *)
PublicFree == Ran => \A i \in 1..Len(Sent(gw)) :
   LET g == c.gates[Sent(gw)[i].g + 1] IN IsSecret(ValAt(gw.v, g.a)) /\ IsSecret(ValAt(gw.v, g.b))
(* C08: every table is made for labels of its own gate and cycle.              *)
FreshLabels == Ran => \A i, j \in 1..NGate(c) :
   i # j /\ gw.fan[i] > 0 /\ gw.fan[j] > 0 /\ (\E k \in 1..Len(gw.tabs) : gw.tabs[k].g = i - 1)
         /\ (\E k \in 1..Len(gw.tabs) : gw.tabs[k].g = j - 1)
   => gw.l[GateLo(c) + i] # gw.l[GateLo(c) + j] /\ gw.l[GateLo(c) + i] # AddR(gw.l[GateLo(c) + j])
=============================================================================
