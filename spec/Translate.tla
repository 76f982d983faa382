------------------------------ MODULE Translate ------------------------------
(* Translating a netlist into a circuit description, as a machine: cells are   *)
(* expanded into gates, gates are placed one by one in any order in which       *)
(* their operands are already numbered, and the result is numbered by place.    *)
(* The order of placing is left open: whichever topological order an            *)
(* implementation uses, the result means the same.                              *)
EXTENDS Netlist, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Netlists
VARIABLES id, N, placed, left, done
vars == <<id, N, placed, left, done>>

Mid(k, j) == "mid" \o ToString(k) \o "_" \o ToString(j)
G(t, a, b, z) == [t |-> t, a |-> a, b |-> b, z |-> z]
(* The gates that stand for cell k.                                            *)
Expand(n, k) ==
  LET c == n.cells[k] i == c.in o == c.out IN
  CASE c.t = "DFF" -> {}
    [] c.t = "MUX" -> {G("XOR", i[1], i[2], Mid(k, 1)), G("AND", i[3], Mid(k, 1), Mid(k, 2)), G("XOR", i[1], Mid(k, 2), o[1])}
    [] c.t = "HADDER" -> (IF o[1] # "" THEN {G("XOR", i[1], i[2], o[1])} ELSE {}) \cup (IF o[2] # "" THEN {G("AND", i[1], i[2], o[2])} ELSE {})
    [] c.t = "FADDER" -> {G("XOR", i[1], i[3], Mid(k, 1))} \cup (IF o[1] # "" THEN {G("XOR", i[2], Mid(k, 1), o[1])} ELSE {})
                         \cup (IF o[2] # "" THEN {G("XOR", i[2], i[3], Mid(k, 2)), G("AND", Mid(k, 1), Mid(k, 2), Mid(k, 3)), G("XOR", i[3], Mid(k, 3), o[2])} ELSE {})
    [] c.t = "NOT" -> {G("NOT", i[1], "", o[1])}
    [] OTHER -> {G(c.t, i[1], i[2], o[1])}

(* Aliases are followed to the net that is driven.                             *)
RECURSIVE Root(_, _)
Root(n, nm) == IF \E k \in 1..Len(n.assigns) : n.assigns[k][1] = nm
               THEN Root(n, n.assigns[CHOOSE k \in 1..Len(n.assigns) : n.assigns[k][1] = nm][2]) ELSE nm
(* A constant output port becomes a gate.                                      *)
ConstPorts(n) == {nm \in (UNION {OutNames(n, i) : i \in 0..(n.o - 1)}) \cup (IF n.term THEN {"terminate"} ELSE {}) :
                    Root(n, nm) # nm /\ Root(n, nm) \in DOMAIN Constants01}
AllGates(n) == UNION {Expand(n, k) : k \in 1..Len(n.cells)} \cup {G("XOR", Root(n, nm), "1'b0", nm) : nm \in ConstPorts(n)}

FFSeq(n) == SetToSortSeq(FFs(n), <)
(* The wire a net is on, once everything it depends on is placed; -9 before.   *)
Wire(n, pl, nm0) ==
  LET nm == IF nm0 \in ConstPorts(n) THEN nm0 ELSE Root(n, nm0)
      lo == InitWidth(n) + InWidth(n)
      ff == FFSeq(n)
  IN IF nm = "" THEN -1
     ELSE IF nm = "1'b0" THEN Zero ELSE IF nm = "1'b1" THEN One
     ELSE IF nm \in DOMAIN InitNets(n) THEN InitNets(n)[nm] - 1
     ELSE IF nm \in DOMAIN InputNets(n) THEN InitWidth(n) + InputNets(n)[nm] - 1
     ELSE IF \E k \in 1..Len(ff) : n.cells[ff[k]].out[1] = nm THEN lo + (CHOOSE k \in 1..Len(ff) : n.cells[ff[k]].out[1] = nm) - 1
     ELSE IF \E k \in 1..Len(pl) : pl[k].z = nm THEN lo + Len(ff) + (CHOOSE k \in 1..Len(pl) : pl[k].z = nm) - 1
     ELSE -9

Init == /\ LET all == TLCEval(Netlists) IN \E i \in 1..Len(all) : id = i /\ N = all[i].n
        /\ placed = <<>> /\ left = AllGates(N) /\ done = "no"
Placeable(g) == Wire(N, placed, g.a) # -9 /\ Wire(N, placed, g.b) # -9
Place == /\ done = "no"
         /\ \E g \in left : Placeable(g) /\ placed' = Append(placed, g) /\ left' = left \ {g}
         /\ UNCHANGED <<id, N, done>>
Finish == /\ done = "no" /\ left = {} /\ done' = "written" /\ UNCHANGED <<id, N, placed, left>>
Refuse == /\ done = "no" /\ left # {} /\ (\A g \in left : ~Placeable(g)) /\ done' = "refused" /\ UNCHANGED <<id, N, placed, left>>
Next == Place \/ Finish \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
OutName(n, i) == CHOOSE nm \in OutNames(n, i) : nm \in ConstPorts(n) \/ Wire(n, placed, nm) # -9
Written ==
  [pi |-> N.pi, gi |-> N.gi, ei |-> N.ei, px |-> N.px, gx |-> N.gx, ex |-> N.ex,
   gates |-> [k \in 1..Len(placed) |-> [t |-> placed[k].t, a |-> Wire(N, placed, placed[k].a), b |-> Wire(N, placed, placed[k].b)]],
   D |-> [k \in 1..Len(FFSeq(N)) |-> Wire(N, placed, N.cells[FFSeq(N)[k]].in[1])],
   I |-> [k \in 1..Len(FFSeq(N)) |-> Wire(N, placed, N.cells[FFSeq(N)[k]].in[2])],
   out |-> [i \in 1..N.o |-> Wire(N, placed, OutName(N, i - 1))],
   term |-> IF N.term THEN Wire(N, placed, "terminate") ELSE 0]

(* A loop is refused, everything else is written; nothing is half done.        *)
LoopIffRefused == /\ (done = "refused" => Order(N).stuck # {}) /\ (done = "written" => Order(N).stuck = {})
Decided == <>(done # "no")
WrittenWellFormed == done = "written" => WellFormed(Written)
GatesOnce == /\ \A a, b \in 1..Len(placed) : a # b => placed[a].z # placed[b].z
             /\ done = "written" => Len(placed) = Count(N, GateCount) + Cardinality(ConstPorts(N))
(* One cycle from any flip-flop contents on any bits: same outputs, terminate  *)
(* and next contents.  With equal first contents this gives every cycle.       *)
SameMeaning ==
  done = "written" =>
    LET c == Written
        o == Order(N).order
        ff == FFSeq(N)
        X(ini, inp) == [pinit |-> SubSeq(ini, 1, N.pi), ginit |-> SubSeq(ini, N.pi + 1, N.pi + N.gi), einit |-> SubSeq(ini, N.pi + N.gi + 1, InitWidth(N)),
                        pin |-> SubSeq(inp, 1, N.px), gin |-> SubSeq(inp, N.px + 1, N.px + N.gx), ein |-> SubSeq(inp, N.px + N.gx + 1, InWidth(N))]
    IN \A ini \in [1..InitWidth(N) -> {0, 1}] :
         /\ FirstDff(c, X(ini, [k \in 1..InWidth(N) |-> 0])) = [k \in 1..Len(ff) |-> FirstFF(N, o, ini)[ff[k]]]
         /\ \A inp \in [1..InWidth(N) -> {0, 1}] : \A st \in [FFs(N) -> {0, 1}] :
              LET e == Nets(N, o, ini, inp, st)
                  v == EvalWires(c, X(ini, inp), 0, [k \in 1..Len(ff) |-> st[ff[k]]])
              IN /\ \A i \in 1..N.o : WireVal(v, c.out[i]) = OutVal(N, e, i - 1)
                 /\ N.term => WireVal(v, c.term) = e["terminate"]
                 /\ NextDff(c, v) = [k \in 1..Len(ff) |-> NextFF(N, e)[ff[k]]]
=============================================================================
