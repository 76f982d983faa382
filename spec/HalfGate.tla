------------------------------- MODULE HalfGate -------------------------------
(* The inside of a garbled table: the half-gates construction, for every table *)
(* type, selection bit and operand value.  A block is a set of atoms (their    *)
(* XOR); the hash of a label is an atom of its own, known only to who holds    *)
(* the label.  Shows what Garbling.tla takes for granted: the table opens to   *)
(* the right label, and reveals neither the offset nor any other label.        *)
EXTENDS Garbling, FiniteSets, TLC, Json

\* atoms: 0 the offset, 1 and 2 the operands' zero-labels, 3..6 hashes
A == {1}
B == {2}
H(half, X) == CASE half = 0 /\ X = A -> {3} [] half = 0 /\ X = AddR(A) -> {4}
                [] half = 1 /\ X = B -> {5} [] half = 1 /\ X = AddR(B) -> {6}
Sum(q) == FoldLeft(LAMBDA x, y : XorL(x, y), {}, q)
When(bit, X) == IF bit = 1 THEN X ELSE {}
Plus(x, y) == (x + y) % 2

\* a table gate is an AND with inverted operands and result
Shape(t) == CHOOSE s \in [a : {0, 1}, b : {0, 1}, c : {0, 1}] :
   \A x, y \in {0, 1} : GateFn(t, x, y) = Plus(Plus(x, s.a) * Plus(y, s.b), s.c)

\* pa, pb: last bits of the operands' zero-labels
Garbled(t, pa, pb) ==
  LET s == Shape(t)
      A0 == Times(s.a, A)      A1 == AddR(A0)      p == Plus(pa, s.a)
      B0 == Times(s.b, B)      B1 == AddR(B0)      q == Plus(pb, s.b)
      r0 == Sum(<<H(0, A0), H(0, A1), When(q, {R})>>)
      r1 == Sum(<<H(1, B0), H(1, B1), A0>>)
      G == Sum(<<H(0, A0), When(p, r0)>>)
      E == Sum(<<H(1, B0), When(q, Sum(<<r1, A0>>))>>)
  IN [rows |-> <<r0, r1>>, zero |-> Times(s.c, Sum(<<G, E>>))]
Opened(rows, pa, pb, a, b) ==
  LET LA == Times(a, A)   LB == Times(b, B) IN
  Sum(<<H(0, LA), When(Plus(pa, a), rows[1]), H(1, LB), When(Plus(pb, b), Sum(<<rows[2], LA>>))>>)

VARIABLES t, pa, pb, a, b
vars == <<t, pa, pb, a, b>>
Init == t \in TableTypes /\ pa \in {0, 1} /\ pb \in {0, 1} /\ a \in {0, 1} /\ b \in {0, 1}
Spec == Init /\ [][UNCHANGED vars]_vars

g == Garbled(t, pa, pb)
Right == Opened(g.rows, pa, pb, a, b) = Times(GateFn(t, a, b), g.zero)
Knows == << Times(a, A), Times(b, B), H(0, Times(a, A)), H(1, Times(b, B)), g.rows[1], g.rows[2] >>
Span(q) == {Sum([i \in 1..Len(q) |-> When(IF i \in S THEN 1 ELSE 0, q[i])]) : S \in SUBSET (1..Len(q))}
\* nothing but the labels held and the opened one can be formed
Private == LET sp == Span(Knows) IN
   /\ {R} \notin sp /\ Cardinality(sp) = 64
   /\ \A X \in {Times(1 - a, A), Times(1 - b, B), Times(1 - GateFn(t, a, b), g.zero)} : X \notin sp
\* every row is covered by a hash the evaluator cannot compute
Covered == \A i \in {1, 2} : g.rows[i] \cap (H(0, Times(1 - a, A)) \cup H(1, Times(1 - b, B))) # {}
Emit == (a = 0 /\ b = 0) => PrintT("@@" \o ToJson([t |-> t, pa |-> pa, pb |-> pb, rows |-> g.rows, zero |-> g.zero]))
===============================================================================
