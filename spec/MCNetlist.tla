------------------------------ MODULE MCNetlist ------------------------------
(* Translations made by the real translator, judged against the netlists they   *)
(* were made from.  The netlist and the circuit description run side by side as *)
(* one machine; TLC explores every initial value, every input sequence and so   *)
(* every reachable pair of flip-flop contents.                                  *)
(* A case is [n: netlist, ok: did the translator succeed, c: circuit it wrote,  *)
(* map: sequence of <<name, wire>>, mapterm: terminate position in the map,     *)
(* inis, ins: sequences of bits to try; empty = all; part: n and c are the part *)
(* of something larger that matters to its outputs]                             *)
EXTENDS Netlist, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Cases
VARIABLES id, P, phase, ini, inp, ffN, ffC
vars == <<id, P, phase, ini, inp, ffN, ffC>>
view == <<id, phase, ini, inp, ffN, ffC>>

Prepare(k) == LET n == k.n  o == Order(n) IN [case |-> k, order |-> o.order, loop |-> o.stuck # {}, legal |-> Legal(n)]
N == P.case.n
C == P.case.c
Translated == P.case.ok /\ ~P.loop
All(w) == [1..w -> {0, 1}]
Inis(p) == IF p.case.inis = <<>> THEN All(InitWidth(p.case.n)) ELSE Range(p.case.inis)
Ins(p)  == IF p.case.ins = <<>> THEN All(InWidth(p.case.n)) ELSE Range(p.case.ins)

(* The shape has to be right before the machine can be run.                    *)
SizesOf(n, c) == /\ c.pi = n.pi /\ c.gi = n.gi /\ c.ei = n.ei
                 /\ c.px = n.px /\ c.gx = n.gx /\ c.ex = n.ex
                 /\ NOut(c) = n.o /\ NDff(c) = Cardinality(FFs(n)) /\ (c.term # 0) = n.term
Runnable(c) == WellFormed(c)
Ready(p) == p.case.ok /\ ~p.loop /\ SizesOf(p.case.n, p.case.c) /\ Runnable(p.case.c)

X(n, i) == [pinit |-> SubSeq(i, 1, n.pi), ginit |-> SubSeq(i, n.pi + 1, n.pi + n.gi), einit |-> SubSeq(i, n.pi + n.gi + 1, InitWidth(n))]
XI(n, i, x) == [pinit |-> SubSeq(i, 1, n.pi), ginit |-> SubSeq(i, n.pi + 1, n.pi + n.gi), einit |-> SubSeq(i, n.pi + n.gi + 1, InitWidth(n)),
                pin |-> SubSeq(x, 1, n.px), gin |-> SubSeq(x, n.px + 1, n.px + n.gx), ein |-> SubSeq(x, n.px + n.gx + 1, InWidth(n))]

Init ==
  /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : id = i /\ P = TLCEval(Prepare(all[i]))
  /\ IF Ready(P)
     THEN /\ phase = "run"
          /\ ini \in Inis(P) /\ inp \in Ins(P)
          /\ ffN = FirstFF(N, P.order, ini)
          /\ ffC = FirstDff(C, X(N, ini))
     ELSE phase = "judged" /\ ini = <<>> /\ inp = <<>> /\ ffN = <<>> /\ ffC = <<>>
EnvN == Nets(N, P.order, ini, inp, ffN)
ValC == EvalWires(C, XI(N, ini, inp), 0, ffC)
Next ==
  /\ phase = "run"
  /\ LET e == EnvN v == ValC IN
     /\ ffN' = NextFF(N, e)
     /\ ffC' = NextDff(C, v)
  /\ inp' \in Ins(P)
  /\ UNCHANGED <<id, P, phase, ini>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Say(what, x) == PrintT("@@" \o ToJson([id |-> id, what |-> what, x |-> x, ini |-> ini, inp |-> inp]))

(* Complete, once, in order.                                                   *)
MapOf == P.case.map
MapNames == {MapOf[k][1] : k \in 1..Len(MapOf)}
Pos(nm) == MapOf[CHOOSE k \in 1..Len(MapOf) : MapOf[k][1] = nm][2]
CellNets(n) == UNION {Drives(n, i) : i \in 1..Len(n.cells)}
(* Outputs that are constant need a gate of their own.                         *)
ConstOuts(n) == Cardinality({i \in 0..(n.o - 1) : \E nm \in OutNames(n, i) : RootOf(n, nm) \in DOMAIN Constants01})
                + IF n.term /\ RootOf(n, "terminate") \in DOMAIN Constants01 THEN 1 ELSE 0
Gates(n)  == Count(n, GateCount)
Tables(n) == Count(n, TableCount)
CTables(c) == Cardinality({i \in 1..NGate(c) : c.gates[i].t \in TableTypes})

Verdict ==
  IF ~P.legal THEN Say("illegal netlist in the family", 0)
  ELSE IF P.loop THEN (P.case.ok => Say("loop accepted", 0))
  ELSE IF ~P.case.ok THEN (~Inexpressible(N) => Say("refused", 0))
  ELSE
  /\ ~SizesOf(N, C) => Say("sizes", 0)
  /\ ~Runnable(C) => Say("order", [k \in {i \in 1..NGate(C) : ~(Operand(C, C.gates[i].a, GateLo(C) + i - 1)
                              /\ (C.gates[i].t # "NOT" => Operand(C, C.gates[i].b, GateLo(C) + i - 1)))} |-> k])
  /\ (~P.case.part /\ (NGate(C) < Gates(N) \/ NGate(C) > Gates(N) + ConstOuts(N))) => Say("gate count", <<NGate(C), Gates(N), ConstOuts(N)>>)
  /\ (~P.case.part /\ CTables(C) # Tables(N)) => Say("table gates", <<CTables(C), Tables(N)>>)
  /\ (N.form = "verilog" /\ ~P.case.part) =>
       /\ ~(CellNets(N) \subseteq MapNames) => Say("not mapped", CellNets(N) \ MapNames)
       /\ \A a, b \in 1..Len(MapOf) : a < b /\ MapOf[a][1] \in CellNets(N) /\ MapOf[b][1] \in CellNets(N) /\ MapOf[a][1] # MapOf[b][1]
                                      /\ MapOf[a][2] = MapOf[b][2] => Say("same position", <<MapOf[a], MapOf[b]>>)
       /\ \A nm \in CellNets(N) \cap MapNames :
            ~(Pos(nm) >= DffLo(C) /\ Pos(nm) < WireSize(C)) => Say("outside", <<nm, Pos(nm)>>)
  /\ P.case.mapterm # C.term => Say("terminate position", <<P.case.mapterm, C.term>>)
(* One verdict per case; it prints what is wrong, the check reads it.          *)
FirstOfCase == phase = "judged" \/ (ini = (CHOOSE a \in Inis(P) : TRUE) /\ inp = (CHOOSE a \in Ins(P) : TRUE))
Judged == FirstOfCase => Verdict

(* Same outputs, same terminate, and every mapped net has its value, in every  *)
(* reachable state of the pair and for every input.                            *)
Same ==
  phase = "run" =>
    LET e == EnvN v == ValC IN
    /\ \A i \in 1..N.o : WireVal(v, C.out[i]) # OutVal(N, e, i - 1) => Say("output", i - 1)
    /\ (N.term /\ WireVal(v, C.term) # e["terminate"]) => Say("terminate", 0)
    /\ \A nm \in CellNets(N) \cap MapNames :
         (Pos(nm) >= DffLo(C) /\ Pos(nm) < WireSize(C) /\ v[Pos(nm) + 1] # e[nm]) => Say("map", nm)
=============================================================================
