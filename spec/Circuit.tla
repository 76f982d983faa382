------------------------------- MODULE Circuit -------------------------------
(* Sequential circuits as TinyGarble's circuit descriptions (SCD) define them: *)
(* gate functions, wire numbering, and the clock-by-clock meaning.  Everything *)
(* else (garbling, sessions, translation, plaintext evaluation, rendering) is  *)
(* specified against this module.                                              *)
(*                                                                             *)
(* A circuit is a record                                                       *)
(*   pi, gi, ei : number of public / garbler / evaluator initial bits          *)
(*   px, gx, ex : number of public / garbler / evaluator input bits per cycle  *)
(*   gates      : sequence of [t, a, b], t in GateTypes, a and b wires         *)
(*   D, I       : per flip-flop the next-state wire and the initial-value wire *)
(*   out        : sequence of output wires                                     *)
(*   term       : the terminate wire, 0 when there is none                     *)
(* Wires: init bits (pi, gi, ei), then inputs (px, gx, ex), then flip-flops,   *)
(* then gates; -2 and -3 are the constants 0 and 1.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Zero == -2
One  == -3

GateTypes == {"AND","ANDN","NAND","NANDN","OR","ORN","NOR","NORN","XOR","XNOR","NOT"}
FreeTypes == {"XOR","XNOR","NOT"}
TableTypes == GateTypes \ FreeTypes

Not(x) == 1 - x
And(x, y) == x * y
Or(x, y) == IF x + y > 0 THEN 1 ELSE 0
Xor(x, y) == IF x = y THEN 0 ELSE 1

GateFn(t, x, y) ==
  CASE t = "AND"   -> And(x, y)
    [] t = "ANDN"  -> And(x, Not(y))
    [] t = "NAND"  -> Not(And(x, y))
    [] t = "NANDN" -> Not(And(x, Not(y)))
    [] t = "OR"    -> Or(x, y)
    [] t = "ORN"   -> Or(x, Not(y))
    [] t = "NOR"   -> Not(Or(x, y))
    [] t = "NORN"  -> Not(Or(x, Not(y)))
    [] t = "XOR"   -> Xor(x, y)
    [] t = "XNOR"  -> Not(Xor(x, y))
    [] t = "NOT"   -> Not(x)

InitSize(c)  == c.pi + c.gi + c.ei
InputSize(c) == c.px + c.gx + c.ex
NDff(c)      == Len(c.D)
NGate(c)     == Len(c.gates)
NOut(c)      == Len(c.out)
DffLo(c)     == InitSize(c) + InputSize(c)
GateLo(c)    == DffLo(c) + NDff(c)
WireSize(c)  == GateLo(c) + NGate(c)

IsGateWire(c, w) == w >= GateLo(c) /\ w < WireSize(c)
GateOf(c, w)     == w - GateLo(c)              \* 0-based gate index

(* Bit i of a number given as a sequence of bits, lowest first; bits beyond    *)
(* the end of what was supplied are 0.                                         *)
Bit(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE 0

(* A circuit every part of the system has to accept: gates refer to earlier    *)
(* wires, flip-flops start from init bits or constants.                        *)
Operand(c, w, hi) == w \in {Zero, One} \/ (w >= InitSize(c) /\ w < hi)
WellFormed(c) ==
  /\ \A i \in 1..NGate(c) :
       /\ c.gates[i].t \in GateTypes
       /\ Operand(c, c.gates[i].a, GateLo(c) + i - 1)
       /\ c.gates[i].t # "NOT" => Operand(c, c.gates[i].b, GateLo(c) + i - 1)
  /\ Len(c.I) = Len(c.D)
  /\ \A i \in 1..NDff(c) :
       /\ Operand(c, c.D[i], WireSize(c))
       /\ c.I[i] \in {Zero, One} \/ c.I[i] \in 0..(InitSize(c) - 1) \/ c.I[i] = -1
  /\ \A i \in 1..NOut(c) : c.out[i] >= InitSize(c) /\ c.out[i] < WireSize(c)
  /\ c.term = 0 \/ (c.term >= InitSize(c) /\ c.term < WireSize(c))

(* A description whose numbers name things that exist (less than WellFormed:    *)
(* a flip-flop with an unknown initial value starts as 0).  Any other one is    *)
(* refused.                                                                     *)
Addressed(c) ==
  /\ \A k \in {c.pi, c.gi, c.ei, c.px, c.gx, c.ex} : k >= 0
  /\ \A i \in 1..NGate(c) :
       /\ Operand(c, c.gates[i].a, GateLo(c) + i - 1)
       /\ IF c.gates[i].t = "NOT" THEN c.gates[i].b < GateLo(c) + i - 1
          ELSE Operand(c, c.gates[i].b, GateLo(c) + i - 1)
  /\ \A i \in 1..NDff(c) : Operand(c, c.D[i], WireSize(c))
  /\ \A i \in 1..NOut(c) : c.out[i] >= InitSize(c) /\ c.out[i] < WireSize(c)
  /\ c.term = 0 \/ (c.term >= InitSize(c) /\ c.term < WireSize(c))

----------------------------------------------------------------------------
(* Clear-text meaning.  x is a record with the bit sequences                   *)
(* pinit, ginit, einit, pin, gin, ein (inputs of all cycles concatenated).     *)

InitBit(c, x, w) ==
  IF w < c.pi THEN Bit(x.pinit, w)
  ELSE IF w < c.pi + c.gi THEN Bit(x.ginit, w - c.pi)
  ELSE Bit(x.einit, w - c.pi - c.gi)

InputBit(c, x, cyc, w) ==          \* w counted from the first input wire
  IF w < c.px THEN Bit(x.pin, cyc * c.px + w)
  ELSE IF w < c.px + c.gx THEN Bit(x.gin, cyc * c.gx + (w - c.px))
  ELSE Bit(x.ein, cyc * c.ex + (w - c.px - c.gx))

DffInit(c, x, d) ==                \* d 1-based
  LET w == c.I[d] IN
  IF w = One THEN 1
  ELSE IF w >= 0 /\ w < InitSize(c) THEN InitBit(c, x, w) ELSE 0

WireVal(v, w) == IF w = Zero THEN 0 ELSE IF w = One THEN 1
                 ELSE IF w < 0 THEN 0 ELSE v[w + 1]

(* Values of all wires in one cycle, from the flip-flop contents.              *)
EvalWires(c, x, cyc, dff) ==
  LET base == [i \in 1..InitSize(c) |-> InitBit(c, x, i - 1)]
              \o [i \in 1..InputSize(c) |-> InputBit(c, x, cyc, i - 1)] \o dff
      step(v, g) == Append(v, GateFn(g.t, WireVal(v, g.a), IF g.t = "NOT" THEN 0 ELSE WireVal(v, g.b)))
  IN FoldLeft(step, base, c.gates)

OutOf(c, v)  == [i \in 1..NOut(c) |-> WireVal(v, c.out[i])]
NextDff(c, v) == [i \in 1..NDff(c) |-> WireVal(v, c.D[i])]
FirstDff(c, x) == [i \in 1..NDff(c) |-> DffInit(c, x, i)]

(* The run: output bits of every executed cycle.  With period > 0 the run ends *)
(* after the first cycle that is a multiple of the period and in which the     *)
(* terminate wire is 1, otherwise after cc cycles.                             *)
RunStep(c, x, period, st, cyc) ==
  IF st.stop THEN st
  ELSE LET v == EvalWires(c, x, cyc, st.dff)
       IN [dff |-> NextDff(c, v), run |-> Append(st.run, OutOf(c, v)),
           stop |-> period > 0 /\ c.term > 0 /\ cyc % period = 0 /\ WireVal(v, c.term) = 1]
Run(c, x, cc, period) ==
  FoldLeft(LAMBDA st, cyc : RunStep(c, x, period, st, cyc),
           [dff |-> FirstDff(c, x), run |-> <<>>, stop |-> FALSE], [k \in 1..cc |-> k - 1]).run

(* What each party is to report: its own bits by the mask, 0 elsewhere.        *)
Share(run, mask, who) ==
  [cy \in 1..Len(run) |->
     [i \in 1..Len(run[cy]) |->
        IF Bit(mask, i - 1) = (IF who = "A" THEN 1 ELSE 0) THEN run[cy][i] ELSE 0]]

Concat(run) == FoldLeft(LAMBDA acc, o : acc \o o, <<>>, run)
=============================================================================
