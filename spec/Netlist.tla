------------------------------- MODULE Netlist -------------------------------
(* Gate-level netlists, as synthesis writes them for TinyGarble, and their      *)
(* clock-by-clock meaning.  Independent of wire numbers, file order and of the  *)
(* circuit description they are translated to.                                  *)
(*                                                                              *)
(* A netlist is a record                                                        *)
(*   pi, gi, ei, px, gx, ex : declared widths of p_init, g_init, e_init,        *)
(*                            p_input, g_input, e_input (0: no such port)       *)
(*   o      : declared width of the output port o                               *)
(*   term   : is there a terminate port?                                        *)
(*   form   : "verilog" or "bristol" (how port bits are named)                  *)
(*   cells  : sequence of [t, in, out], nets by name, "" = not connected        *)
(*   assigns: sequence of <<left, right>>, the net left is the net right        *)
(* Pins, in order:  two-input gates A B -> Z;  NOT A -> Z;  DFF D I -> Q;       *)
(*   MUX IN0 IN1 SEL -> F;  HADDER IN0 IN1 -> SUM COUT;                         *)
(*   FADDER IN0 IN1 CIN -> SUM COUT.                                            *)
EXTENDS Circuit, TLC

CellTypes == GateTypes \cup {"DFF", "MUX", "HADDER", "FADDER"}
Combinational(cell) == cell.t # "DFF"

(* The function of a combinational cell: values of its output pins.            *)
CellFn(t, v) ==
  CASE t = "MUX"    -> <<IF v[3] = 1 THEN v[2] ELSE v[1]>>
    [] t = "HADDER" -> <<(v[1] + v[2]) % 2, (v[1] + v[2]) \div 2>>
    [] t = "FADDER" -> <<(v[1] + v[2] + v[3]) % 2, (v[1] + v[2] + v[3]) \div 2>>
    [] t = "NOT"    -> <<GateFn("NOT", v[1], 0)>>
    [] OTHER        -> <<GateFn(t, v[1], v[2])>>

(* How many gates of a circuit description stand for a cell.                   *)
GateCount(cell) ==
  CASE cell.t = "DFF"    -> 0
    [] cell.t = "MUX"    -> 3
    [] cell.t = "HADDER" -> Cardinality({k \in 1..2 : cell.out[k] # ""})
    [] cell.t = "FADDER" -> 1 + (IF cell.out[1] # "" THEN 1 ELSE 0) + (IF cell.out[2] # "" THEN 3 ELSE 0)
    [] OTHER             -> 1
TableCount(cell) ==
  CASE cell.t \in TableTypes \cup {"MUX"} -> 1
    [] cell.t \in {"HADDER", "FADDER"} -> IF cell.out[2] # "" THEN 1 ELSE 0
    [] OTHER -> 0

----------------------------------------------------------------------------
(* Names of port bits.                                                         *)
Indexed(p, i) == p \o "[" \o ToString(i) \o "]"
BitNames(p, i, n) == IF n = 1 THEN {p, Indexed(p, 0)} ELSE {Indexed(p, i)}

InitWidth(n) == n.pi + n.gi + n.ei
InWidth(n)   == n.px + n.gx + n.ex

(* Position 1.. of a port bit among the initial bits, and among the inputs.    *)
Port(p, n, before) == [nm \in UNION {BitNames(p, i, n) : i \in 0..(n - 1)} |->
                         before + 1 + (CHOOSE i \in 0..(n - 1) : nm \in BitNames(p, i, n))]
InitNets(n) == IF n.form = "bristol" THEN [nm \in {} |-> 0]
               ELSE Port("p_init", n.pi, 0) @@ Port("g_init", n.gi, n.pi) @@ Port("e_init", n.ei, n.pi + n.gi)
InputNets(n) ==
  IF n.form = "bristol" THEN [nm \in {ToString(i) : i \in 0..(InWidth(n) - 1)} |-> 1 + (CHOOSE i \in 0..(InWidth(n) - 1) : nm = ToString(i))]
  ELSE Port("p_input", n.px, 0) @@ Port("g_input", n.gx, n.px) @@ Port("e_input", n.ex, n.px + n.gx)

(* In the Bristol form the last o wires are the outputs.                       *)
OutNames(n, i) ==
  IF n.form = "bristol" THEN {ToString(n.wires - n.o + i)} ELSE BitNames("o", i, n.o)

Constants01 == ("1'b0" :> 0) @@ ("1'b1" :> 1)

----------------------------------------------------------------------------
(* Which cells can be evaluated in which order.  A step is a cell (index > 0)  *)
(* or an assign (index < 0); a step is ready when all nets it reads are known. *)
Reads(n, s)  == IF s > 0 THEN {n.cells[s].in[k] : k \in 1..Len(n.cells[s].in)} ELSE {n.assigns[-s][2]}
Drives(n, s) == IF s > 0 THEN {n.cells[s].out[k] : k \in 1..Len(n.cells[s].out)} \ {""} ELSE {n.assigns[-s][1]}
Sources(n)   == DOMAIN InitNets(n) \cup DOMAIN InputNets(n) \cup DOMAIN Constants01
                \cup UNION {Drives(n, s) : s \in {i \in 1..Len(n.cells) : ~Combinational(n.cells[i])}}
Steps(n)     == {i \in 1..Len(n.cells) : Combinational(n.cells[i])} \cup {-i : i \in 1..Len(n.assigns)}

RECURSIVE OrderFrom(_, _, _, _)
OrderFrom(n, known, left, acc) ==
  LET ready == {s \in left : Reads(n, s) \subseteq known}
  IN IF ready = {} THEN [order |-> acc, stuck |-> left]
     ELSE OrderFrom(n, known \cup UNION {Drives(n, s) : s \in ready}, left \ ready, acc \o SetToSeq(ready))
Order(n) == OrderFrom(n, Sources(n), Steps(n), <<>>)

(* A netlist with nothing stuck has a meaning; one in which every stuck step   *)
(* only waits for other stuck steps contains a combinational loop.             *)
Loop(n)    == Order(n).stuck # {}

(* Legal netlists: one driver per net, everything read is driven.              *)
AllSteps(n) == (1..Len(n.cells)) \cup {-i : i \in 1..Len(n.assigns)}
Legal(n) ==
  /\ \A i \in 1..Len(n.cells) : n.cells[i].t \in CellTypes
  /\ \A s, t \in AllSteps(n) : s # t => Drives(n, s) \cap Drives(n, t) = {}
  /\ \A s \in AllSteps(n) : Drives(n, s) \cap (DOMAIN InitNets(n) \cup DOMAIN InputNets(n) \cup DOMAIN Constants01) = {}
  /\ LET driven == Sources(n) \cup UNION {Drives(n, s) : s \in Steps(n)}
     IN /\ \A s \in AllSteps(n) : Reads(n, s) \subseteq driven
        /\ \A i \in 0..(n.o - 1) : OutNames(n, i) \cap driven # {}
        /\ n.term => "terminate" \in driven

----------------------------------------------------------------------------
(* Meaning.  ini, inp: sequences of bits; ff: contents of the flip-flops, by   *)
(* cell number.                                                                *)
FFs(n) == {i \in 1..Len(n.cells) : n.cells[i].t = "DFF"}

Known(n, ini, inp, ff) ==
  LET in0 == InitNets(n) in1 == InputNets(n)
  IN Constants01 @@ [nm \in DOMAIN in0 |-> ini[in0[nm]]] @@ [nm \in DOMAIN in1 |-> inp[in1[nm]]]
     @@ [nm \in {n.cells[i].out[1] : i \in FFs(n)} |-> ff[CHOOSE i \in FFs(n) : n.cells[i].out[1] = nm]]

Do(n, env, s) ==
  IF s < 0 THEN (n.assigns[-s][1] :> env[n.assigns[-s][2]]) @@ env
  ELSE LET c == n.cells[s]
           v == CellFn(c.t, [k \in 1..Len(c.in) |-> env[c.in[k]]])
       IN [nm \in Drives(n, s) |-> v[CHOOSE k \in 1..Len(c.out) : c.out[k] = nm]] @@ env

(* Values of all nets in one clock cycle.                                      *)
Nets(n, order, ini, inp, ff) == FoldLeft(LAMBDA env, s : Do(n, env, s), Known(n, ini, inp, ff), order)

OutVal(n, env, i) == env[CHOOSE nm \in OutNames(n, i) : nm \in DOMAIN env]
NextFF(n, env)    == [i \in FFs(n) |-> env[n.cells[i].in[1]]]
(* Before the first cycle only constants and initial bits are known.           *)
FirstFF(n, order, ini) ==
  LET env == Nets(n, order, ini, [k \in 1..InWidth(n) |-> 0], [i \in FFs(n) |-> 0])
  IN [i \in FFs(n) |-> env[n.cells[i].in[2]]]

(* What drives a net, seen through the assigns.                                *)
RECURSIVE RootOf(_, _)
RootOf(n, nm) == IF \E k \in 1..Len(n.assigns) : n.assigns[k][1] = nm
                 THEN RootOf(n, n.assigns[CHOOSE k \in 1..Len(n.assigns) : n.assigns[k][1] = nm][2]) ELSE nm

(* The terminate port on wire 0 cannot be written down (0 stands for none).    *)
Inexpressible(n) ==
  /\ n.term
  /\ LET r == RootOf(n, "terminate") w == IF InitWidth(n) = 0 /\ InWidth(n) > 0 THEN InputNets(n) ELSE [x \in {} |-> 0]
     IN \/ InitWidth(n) = 0 /\ r \in DOMAIN w /\ w[r] = 1
        \/ InitWidth(n) + InWidth(n) = 0 /\ \E i \in FFs(n) : n.cells[i].out[1] = r
        \/ InitWidth(n) + InWidth(n) = 0 /\ FFs(n) = {}

Count(n, F(_)) == FoldLeft(LAMBDA acc, c : acc + F(c), 0, n.cells)
=============================================================================
