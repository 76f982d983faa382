------------------------------ MODULE Garbling ------------------------------
(* Per-cycle garbling and evaluation with symbolic labels.                     *)
(*                                                                             *)
(* A label is a set of atoms, read as their XOR.  Atom 0 is the secret offset  *)
(* R; every secret initial bit, secret input bit and garbled (table) gate has  *)
(* an atom of its own per cycle.  A wire's labels are L and L + R; the         *)
(* evaluator holds one of them.  A garbled table is ideal here: it maps the    *)
(* pair of labels actually held to the right label of the gate's fresh atom,   *)
(* and to garbage if one of them is not a label of the operand (HalfGate.tla   *)
(* shows that the half-gate construction does exactly this).                   *)
EXTENDS Circuit

R == 0
XorL(X, Y) == (X \ Y) \cup (Y \ X)
AddR(X) == XorL(X, {R})
Times(v, X) == IF v = 1 THEN AddR(X) ELSE X

SECRET == 2
INV    == 3                        \* evaluator only: the label stands for the inverted value
IsSecret(v) == v >= 2

NSecInit(c) == c.gi + c.ei
NSecIn(c)   == c.gx + c.ex

\* atoms
InitAtom(c, k)          == 1 + k
InputAtom(c, cyc, k)    == 1 + NSecInit(c) + cyc * NSecIn(c) + k
GateAtom(c, cc, cyc, g) == 1 + NSecInit(c) + cc * NSecIn(c) + cyc * NGate(c) + g
JunkAtom(c, cc, cyc, g) == 1 + NSecInit(c) + cc * NSecIn(c) + cc * NGate(c) + cyc * NGate(c) + g

----------------------------------------------------------------------------
(* Fan-out of gates: uses by gates, flip-flops, outputs and the terminate wire *)
FanoutOf(c, g) ==               \* g 0-based
  LET w == GateLo(c) + g
      n(S) == Cardinality(S)
  IN n({i \in 1..NGate(c) : c.gates[i].a = w}) + n({i \in 1..NGate(c) : c.gates[i].t # "NOT" /\ c.gates[i].b = w})
     + n({i \in 1..NDff(c) : c.D[i] = w}) + n({i \in 1..NOut(c) : c.out[i] = w})
     + (IF c.term > 0 /\ c.term = w THEN 1 ELSE 0)

RECURSIVE Reduce(_, _, _)
Reduce(c, fan, w) ==            \* one use of wire w disappears
  IF ~IsGateWire(c, w) \/ fan[GateOf(c, w) + 1] = 0 THEN fan
  ELSE LET g == GateOf(c, w) + 1
           f1 == [fan EXCEPT ![g] = @ - 1]
       IN IF f1[g] > 0 THEN f1
          ELSE LET gt == c.gates[g] IN
               Reduce(c, Reduce(c, f1, gt.a), IF gt.t = "NOT" THEN -1 ELSE gt.b)

\* the value a half-known gate takes when its other operand is 0 / 1
Half(t, first, v, z) == IF first THEN GateFn(t, v, z) ELSE GateFn(t, z, v)

(* Value a gate has for everybody: 0, 1 or SECRET.                             *)
Public(t, va, vb) ==
  IF t = "NOT" THEN (IF IsSecret(va) THEN SECRET ELSE Not(va))
  ELSE IF ~IsSecret(va) /\ ~IsSecret(vb) THEN GateFn(t, va, vb)
  ELSE IF ~IsSecret(va) THEN
         (IF Half(t, TRUE, va, 0) = Half(t, TRUE, va, 1) THEN Half(t, TRUE, va, 0) ELSE SECRET)
  ELSE IF ~IsSecret(vb) THEN
         (IF Half(t, FALSE, vb, 0) = Half(t, FALSE, vb, 1) THEN Half(t, FALSE, vb, 0) ELSE SECRET)
  ELSE SECRET

ValAt(v, w) == IF w = Zero THEN 0 ELSE IF w = One THEN 1 ELSE IF w < 0 THEN 0 ELSE v[w + 1]
LabAt(l, w) == IF w < 0 THEN {} ELSE l[w + 1]
ValB(v, g)  == IF g.t = "NOT" THEN SECRET ELSE ValAt(v, g.b)

(* First pass of a cycle: public values, and the uses that disappear with them *)
KnownPass(c, base, fan0) ==
  FoldLeft(LAMBDA acc, i :
     LET g == c.gates[i]
         va == ValAt(acc.v, g.a)
         vb == ValB(acc.v, g)
         r == Public(g.t, va, vb)
         f0 == IF IsSecret(r) THEN acc.fan ELSE [acc.fan EXCEPT ![i] = 0]
         f1 == IF ~IsSecret(r) /\ IsSecret(va) THEN Reduce(c, f0, g.a) ELSE f0
         f2 == IF ~IsSecret(r) /\ IsSecret(vb) /\ g.t # "NOT" THEN Reduce(c, f1, g.b) ELSE f1
     IN [v |-> Append(acc.v, IF IsSecret(r) THEN SECRET ELSE r), fan |-> f2],
     [v |-> base, fan |-> fan0], [i \in 1..NGate(c) |-> i])

\* result of a two-input gate on equal / inverse operands: 0, 1, "same" or "inv"
OnEqual(t) == CASE t \in {"XOR","ANDN","NORN"} -> "0" [] t \in {"XNOR","ORN","NANDN"} -> "1"
                [] t \in {"AND","OR"} -> "same" [] t \in {"NAND","NOR"} -> "inv"
OnInverse(t) == CASE t \in {"XNOR","AND","NOR"} -> "0" [] t \in {"XOR","OR","NAND"} -> "1"
                  [] t \in {"ANDN","ORN"} -> "same" [] t \in {"NANDN","NORN"} -> "inv"

----------------------------------------------------------------------------
(* Garbler: zero-labels of the gate wires, final public values, tables.        *)
GarbleOne(c, cc, cyc, g, i, va, la, vb, lb) ==      \* -> [v, l, tab]
  LET out(v, l, t) == [v |-> v, l |-> l, tab |-> t]
      half(first, v, l) == IF Half(g.t, first, v, 0) = Half(g.t, first, v, 1)
                           THEN out(Half(g.t, first, v, 0), {}, FALSE)
                           ELSE out(SECRET, IF Half(g.t, first, v, 0) = 0 THEN l ELSE AddR(l), FALSE)
      triv(k) == CASE k = "0" -> out(0, {}, FALSE) [] k = "1" -> out(1, {}, FALSE)
                   [] k = "same" -> out(SECRET, la, FALSE) [] k = "inv" -> out(SECRET, AddR(la), FALSE)
  IN IF g.t = "NOT" THEN (IF IsSecret(va) THEN out(SECRET, AddR(la), FALSE) ELSE out(Not(va), {}, FALSE))
     ELSE IF ~IsSecret(va) /\ ~IsSecret(vb) THEN out(GateFn(g.t, va, vb), {}, FALSE)
     ELSE IF ~IsSecret(va) THEN half(TRUE, va, lb)
     ELSE IF ~IsSecret(vb) THEN half(FALSE, vb, la)
     ELSE IF la = lb THEN triv(OnEqual(g.t))
     ELSE IF la = AddR(lb) THEN triv(OnInverse(g.t))
     ELSE IF g.t = "XOR" THEN out(SECRET, XorL(la, lb), FALSE)
     ELSE IF g.t = "XNOR" THEN out(SECRET, AddR(XorL(la, lb)), FALSE)
     ELSE out(SECRET, {GateAtom(c, cc, cyc, i - 1)}, TRUE)

GarbleGates(c, cc, cyc, known, baseL) ==
  FoldLeft(LAMBDA acc, i :
     LET g == c.gates[i]
         w == GateLo(c) + i IN
     IF acc.fan[i] = 0 \/ ~IsSecret(acc.v[w]) THEN [acc EXCEPT !.l = Append(@, {})]
     ELSE LET va == ValAt(acc.v, g.a)
              vb == ValB(acc.v, g)
              r == GarbleOne(c, cc, cyc, g, i, va, LabAt(acc.l, g.a), vb, IF g.t = "NOT" THEN {} ELSE LabAt(acc.l, g.b))
              f0 == IF IsSecret(r.v) THEN acc.fan ELSE [acc.fan EXCEPT ![i] = 0]
              f1 == IF ~IsSecret(r.v) /\ IsSecret(va) THEN Reduce(c, f0, g.a) ELSE f0
              f2 == IF ~IsSecret(r.v) /\ IsSecret(vb) /\ g.t # "NOT" THEN Reduce(c, f1, g.b) ELSE f1
          IN [v |-> [acc.v EXCEPT ![w] = r.v], l |-> Append(acc.l, r.l), fan |-> f2,
              tabs |-> IF r.tab THEN Append(acc.tabs, [g |-> i - 1, a |-> LabAt(acc.l, g.a), b |-> LabAt(acc.l, g.b)]) ELSE acc.tabs],
     [v |-> known.v, l |-> baseL, fan |-> known.fan, tabs |-> <<>>], [i \in 1..NGate(c) |-> i])

\* non-gate wires of a cycle.  prev = wires of the previous cycle (unused at cycle 0)
BaseV(c, x, cyc, prev) ==
  [i \in 1..InitSize(c) |-> SECRET]
  \o [i \in 1..InputSize(c) |-> IF i <= c.px THEN InputBit(c, x, cyc, i - 1) ELSE SECRET]
  \o [i \in 1..NDff(c) |->
        IF cyc = 0 THEN
          LET w == c.I[i] IN
          IF w = One THEN 1 ELSE IF w < 0 \/ w >= InitSize(c) THEN 0
          ELSE IF w < c.pi THEN InitBit(c, x, w) ELSE SECRET
        ELSE ValAt(prev.v, c.D[i])]
GarbleBaseL(c, cyc, prev) ==
  [i \in 1..InitSize(c) |-> {}]
  \o [i \in 1..InputSize(c) |-> IF i <= c.px THEN {} ELSE {InputAtom(c, cyc, i - 1 - c.px)}]
  \o [i \in 1..NDff(c) |->
        IF cyc = 0 THEN
          LET w == c.I[i] IN IF w >= c.pi /\ w < InitSize(c) THEN {InitAtom(c, w - c.pi)} ELSE {}
        ELSE LabAt(prev.l, c.D[i])]

(* The same for all gates, by counting uses.                                   *)
AddUse(c, fan, w) == IF IsGateWire(c, w) THEN [fan EXCEPT ![GateOf(c, w) + 1] = @ + 1] ELSE fan
Fan0(c) ==
  LET gs == FoldLeft(LAMBDA f, g : AddUse(c, AddUse(c, f, g.a), IF g.t = "NOT" THEN -1 ELSE g.b),
                     [i \in 1..NGate(c) |-> 0], c.gates)
  IN FoldLeft(LAMBDA f, w : AddUse(c, f, w), gs, c.D \o c.out \o (IF c.term > 0 THEN <<c.term>> ELSE <<>>))
FanoutsAgree(c) == \A i \in 1..NGate(c) : Fan0(c)[i] = FanoutOf(c, i - 1)

(* One garbled cycle: [v, l, fan, tabs]; the tables sent are Sent(...).        *)
GarbleCycle(c, fan0, x, cc, cyc, prev) ==
  GarbleGates(c, cc, cyc, KnownPass(c, BaseV(c, x, cyc, prev), fan0), GarbleBaseL(c, cyc, prev))
Sent(gc) == SelectSeq(gc.tabs, LAMBDA t : gc.fan[t.g + 1] > 0)
Gids(tabs) == [i \in 1..Len(tabs) |-> tabs[i].g]

(* The same, said directly: a gate needs a table iff it is a table-type gate,  *)
(* its operands are both secret and neither equal nor inverse, and its value   *)
(* is used.  Used: by an output, flip-flop or the terminate wire, or by a used *)
(* gate whose own value is secret.                                             *)
RECURSIVE UsedFrom(_, _, _, _)
UsedFrom(c, gc, i, used) ==            \* i runs from the last gate down
  IF i = 0 THEN used
  ELSE LET g == c.gates[i]
           w == GateLo(c) + i - 1
       IN UsedFrom(c, gc, i - 1,
            IF w \in used /\ IsSecret(gc.v[w + 1])
            THEN used \cup {g.a} \cup (IF g.t = "NOT" THEN {} ELSE {g.b}) ELSE used)
Used(c, gc) == UsedFrom(c, gc, NGate(c),
                 {c.D[i] : i \in 1..NDff(c)} \cup {c.out[i] : i \in 1..NOut(c)}
                 \cup (IF c.term > 0 THEN {c.term} ELSE {}))
NeedsTable(c, gc, i) ==
  LET g == c.gates[i] IN
  /\ g.t \in TableTypes
  /\ (GateLo(c) + i - 1) \in Used(c, gc)
  /\ IsSecret(ValAt(gc.v, g.a)) /\ IsSecret(ValAt(gc.v, g.b))
  /\ LabAt(gc.l, g.a) # LabAt(gc.l, g.b) /\ LabAt(gc.l, g.a) # AddR(LabAt(gc.l, g.b))
MinimalTables(c, gc) == SelectSeq([i \in 1..NGate(c) |-> i - 1], LAMBDA g : NeedsTable(c, gc, g + 1))

----------------------------------------------------------------------------
(* Evaluator: one label per secret wire; tabs is the received sequence of      *)
(* tables [g, a, b] (gate and the operands' zero-labels it was made for).  A   *)
(* table opens to the right label iff both labels held belong to those         *)
(* operands, and to junk otherwise.                                            *)
EvalOne(c, cc, cyc, g, i, va, la, vb, lb, hasTab, gla, glb) ==   \* -> [v, l, used]
  LET out(v, l, u) == [v |-> v, l |-> l, used |-> u]
      flip(v) == IF v = SECRET THEN INV ELSE SECRET
      half(first, v, sv, l) ==
         IF Half(g.t, first, v, 0) = Half(g.t, first, v, 1) THEN out(Half(g.t, first, v, 0), {}, FALSE)
         ELSE out(IF Half(g.t, first, v, 0) = 0 THEN sv ELSE flip(sv), l, FALSE)
      triv(k) == CASE k = "0" -> out(0, {}, FALSE) [] k = "1" -> out(1, {}, FALSE)
                   [] k = "same" -> out(va, la, FALSE) [] k = "inv" -> out(flip(va), la, FALSE)
      xs == IF va = vb THEN SECRET ELSE INV
      good(l, gl) == l = gl \/ l = AddR(gl)
      bit(l, gl) == IF l = gl THEN 0 ELSE 1
  IN IF g.t = "NOT" THEN (IF IsSecret(va) THEN out(flip(va), la, FALSE) ELSE out(Not(va), {}, FALSE))
     ELSE IF ~IsSecret(va) /\ ~IsSecret(vb) THEN out(GateFn(g.t, va, vb), {}, FALSE)
     ELSE IF ~IsSecret(va) THEN half(TRUE, va, vb, lb)
     ELSE IF ~IsSecret(vb) THEN half(FALSE, vb, va, la)
     ELSE IF la = lb /\ va = vb THEN triv(OnEqual(g.t))
     ELSE IF la = lb THEN triv(OnInverse(g.t))
     ELSE IF g.t = "XOR" THEN out(xs, XorL(la, lb), FALSE)
     ELSE IF g.t = "XNOR" THEN out(flip(xs), XorL(la, lb), FALSE)
     ELSE IF hasTab /\ good(la, gla) /\ good(lb, glb)
          THEN out(SECRET, Times(GateFn(g.t, bit(la, gla), bit(lb, glb)), {GateAtom(c, cc, cyc, i - 1)}), TRUE)
          ELSE out(SECRET, {JunkAtom(c, cc, cyc, i - 1)}, hasTab)

EvalGates(c, cc, cyc, known, baseL, tabs) ==
  FoldLeft(LAMBDA acc, i :
     LET g == c.gates[i]
         w == GateLo(c) + i IN
     IF acc.fan[i] = 0 \/ ~IsSecret(acc.v[w]) THEN [acc EXCEPT !.l = Append(@, {})]
     ELSE LET va == ValAt(acc.v, g.a)
              vb == ValB(acc.v, g)
              has == acc.used < Len(tabs) /\ tabs[acc.used + 1].g = i - 1
              ta == IF has THEN tabs[acc.used + 1].a ELSE {}
              tb == IF has THEN tabs[acc.used + 1].b ELSE {}
              r == EvalOne(c, cc, cyc, g, i, va, LabAt(acc.l, g.a), vb, IF g.t = "NOT" THEN {} ELSE LabAt(acc.l, g.b),
                           has, ta, tb)
              f0 == IF IsSecret(r.v) THEN acc.fan ELSE [acc.fan EXCEPT ![i] = 0]
              f1 == IF ~IsSecret(r.v) /\ IsSecret(va) THEN Reduce(c, f0, g.a) ELSE f0
              f2 == IF ~IsSecret(r.v) /\ IsSecret(vb) /\ g.t # "NOT" THEN Reduce(c, f1, g.b) ELSE f1
          IN [v |-> [acc.v EXCEPT ![w] = r.v], l |-> Append(acc.l, r.l), fan |-> f2,
              used |-> acc.used + (IF r.used THEN 1 ELSE 0)],
     [v |-> known.v, l |-> baseL, fan |-> known.fan, used |-> 0], [i \in 1..NGate(c) |-> i])

(* initL / inL: the labels received for the secret initial bits and for this   *)
(* cycle's secret inputs.                                                      *)
EvalBaseL(c, cyc, prev, initL, inL) ==
  [i \in 1..InitSize(c) |-> {}]
  \o [i \in 1..InputSize(c) |-> IF i <= c.px THEN {} ELSE inL[i - c.px]]
  \o [i \in 1..NDff(c) |->
        IF cyc = 0 THEN
          LET w == c.I[i] IN IF w >= c.pi /\ w < InitSize(c) THEN initL[w - c.pi + 1] ELSE {}
        ELSE LabAt(prev.l, c.D[i])]

(* What the evaluator can tell after the cycle: the tables it needed.          *)
Needed(c, ec) == Cardinality({i \in 1..NGate(c) :
   LET g == c.gates[i] IN
   /\ ec.fan[i] > 0 /\ g.t \in TableTypes
   /\ IsSecret(ValAt(ec.v, g.a)) /\ IsSecret(ValAt(ec.v, g.b))
   /\ LabAt(ec.l, g.a) # LabAt(ec.l, g.b)})

EvalCycle(c, fan0, x, cc, cyc, prev, initL, inL, tabs) ==
  EvalGates(c, cc, cyc, KnownPass(c, BaseV(c, x, cyc, prev), fan0),
            EvalBaseL(c, cyc, prev, initL, inL), tabs)

----------------------------------------------------------------------------
(* Agreement of the two views with the clear-text values v of the cycle.       *)
(* Every used wire: publicly known to both with the right value, or secret to  *)
(* both, the evaluator holding the label of the wire's value.                  *)
Agree(c, gc, ec, v) ==
  \A w \in Used(c, gc) : w >= InitSize(c) =>
    IF IsSecret(gc.v[w + 1])
    THEN IsSecret(ec.v[w + 1]) /\ ec.l[w + 1] = Times(v[w + 1], gc.l[w + 1])
    ELSE gc.v[w + 1] = v[w + 1] /\ ec.v[w + 1] = v[w + 1]
=============================================================================
