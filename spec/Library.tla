------------------------------- MODULE Library -------------------------------
(* What the designs of circuit_synthesis compute, clock by clock.  Every value  *)
(* is its bits, lowest first; numbers are only used where they stay below 2^30. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Two == [k \in 0..30 |-> 2 ^ k]
Num(b) == FoldLeft(LAMBDA a, i : a + b[i] * Two[i - 1], 0, [i \in 1..Len(b) |-> i])
SNum(b) == IF b[Len(b)] = 1 THEN Num(b) - Two[Len(b)] ELSE Num(b)
Bits(n, w) == [i \in 1..w |-> (n \div Two[i - 1]) % 2]       \* also of negative numbers
Zeros(w) == [i \in 1..w |-> 0]
Wide(b, w) == [i \in 1..w |-> IF i <= Len(b) THEN b[i] ELSE 0]
Not(b) == [i \in 1..Len(b) |-> 1 - b[i]]
Xor(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
Weight(b) == FoldLeft(LAMBDA n, x : n + x, 0, b)
Part(b, w, i) == SubSeq(b, w * i + 1, w * (i + 1))          \* the i-th word of w bits
Words(b, w) == [i \in 1..(Len(b) \div w) |-> Part(b, w, i - 1)]
Lg(n) == CHOOSE k \in 0..30 : Two[k] > n /\ (k = 0 \/ Two[k - 1] <= n)    \* bits to write n
Abs(n) == IF n < 0 THEN -n ELSE n

\* sums of any width: bits and carry
Sum(a, b, c) == FoldLeft(LAMBDA r, i : LET t == a[i] + b[i] + r.c IN [s |-> Append(r.s, t % 2), c |-> t \div 2],
                         [s |-> <<>>, c |-> c], [i \in 1..Len(a) |-> i])
AtLeast(a, b) == Sum(a, Not(b), 1).c                         \* a >= b
Quotient(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n

RECURSIVE Power(_, _, _)
Power(m, e, n) == IF e = 0 THEN 1 % n ELSE LET h == Power((m * m) % n, e \div 2, n) IN (IF e % 2 = 1 THEN h * m ELSE h) % n

(* Distances of the neighbour searches.                                        *)
Hamming(a, b) == Weight(Xor(a, b))
Taxicab(a, b) == LET w == Len(a) \div 2 IN Abs(Num(Part(a, w, 0)) - Num(Part(b, w, 0))) + Abs(Num(Part(a, w, 1)) - Num(Part(b, w, 1)))

(* Products of square matrices in rows of m-bit words, modulo 2^m.              *)
Dot(xs, ys, m) == FoldLeft(LAMBDA a, i : (a + Num(xs[i]) * Num(ys[i])) % Two[m], 0, [i \in 1..Len(xs) |-> i])
MatMul(x, y, n, m) ==
  LET X == Words(x, m)  Y == Words(y, m)
  IN FoldLeft(LAMBDA acc, e : acc \o Bits(Dot([k \in 1..n |-> X[n * (e \div n) + k]], [k \in 1..n |-> Y[n * (k - 1) + (e % n) + 1]], m), m),
              <<>>, [e1 \in 1..(n * n) |-> e1 - 1])

----------------------------------------------------------------------------
(* A design with its parameters p: the state it starts in, given the initial    *)
(* values it was handed, and what a clock cycle with inputs x does: outputs and *)
(* next state.  Outputs are in the order of the ports.                         *)
Start(d, p, ini) ==
  CASE d = "sum" -> 0
    [] d = "compare" -> 1
    [] d = "hamming" -> 0
    [] d = "non_secret_test" -> 0
    [] d = "public_test" -> [r1 |-> ini.p_init, r2 |-> ini.g_init, r3 |-> ini.e_init]
    [] d = "matrix_mult_N_M_1" -> [i \in 1..p.N |-> 0]
    [] d \in {"matrix_mult_N_M_2", "matrix_mult_N_M_3"} -> 0
    [] d = "select" -> [i \in 1..p.M |-> Zeros(p.W)]
    [] d = "stackMachine" -> [i \in 1..p.S |-> 0]
    [] d \in {"first_nns_seq", "first_nns_seq_td", "k_nns_seq", "k_nns_seq_td", "knns_seq"} -> <<>>        \* what was seen
    [] d \in {"modexp_1_N", "modexp_2N_NN"} -> 0             \* cycles
    [] d = "modmult" -> [z |-> 0, x |-> Zeros(p.N)]
    [] OTHER -> 0

R(out, st) == [out |-> out, st |-> st]
Cycle(d, p, st, x) ==
  CASE d = "ADD" -> LET s == Sum(x.A, Wide(x.B, p.N), x.CI[1]) IN R(<<s.c>> \o s.s, st)
    [] d = "ADD_" -> R(Bits(SNum(x.A) + SNum(x.B), p.N + 1), st)
    [] d = "SUB" -> LET s == Sum(x.A, Not(Wide(x.B, p.N)), 1) IN R(<<s.c>> \o s.s, st)
    [] d = "SUB_" -> R(Bits(SNum(x.A) - SNum(x.B), p.N + 1), st)
    [] d = "COMP" -> R(<<AtLeast(x.A, Wide(x.B, p.N))>>, st)
    [] d = "MULT" -> R(Bits(Num(x.A) * Num(x.B), p.N + p.M), st)
    [] d = "MULT_" -> R(Bits(SNum(x.A) * SNum(x.B), p.N + p.M), st)
    [] d = "DIV" -> R(Bits(Num(x.A) \div Num(x.B), p.N), st)
    [] d = "DIV_" -> R(Bits(Quotient(SNum(x.A), SNum(x.B)), p.N), st)
    [] d = "COUNT" -> R(Bits(Weight(x.A), Lg(p.N)), st)
    [] d = "MUX" -> R(IF x.S[1] = 1 THEN x.B ELSE x.A, st)
    [] d = "FA" -> R(Bits(x.A[1] + x.B[1] + x.CI[1], 2), st)
    [] d = "SHIFT_LEFT" -> LET k == Num(x.shift_amount) IN R([i \in 1..p.N |-> IF i > k THEN x.a[i - k] ELSE 0], st)
    [] d = "SHIFT_RIGHT" -> LET k == Num(x.shift_amount) IN R([i \in 1..p.N |-> IF i + k <= p.N THEN x.a[i + k] ELSE 0], st)
    [] d = "TwosComplement" -> R(Sum(Not(x.A), Zeros(p.N), 1).s, st)
    [] d = "square_root_comb" -> R(Bits(Root(Num(x.A)), p.N \div 2), st)
    [] d = "taxicab_distance" -> R(Bits(Taxicab(x.x1 \o x.y1, x.x2 \o x.y2), p.N + 2), st)
    [] d = "sum" -> LET s == Sum(x.g_input, x.e_input, st) IN R(s.s, s.c)
    [] d = "compare" -> LET c == Sum(x.g_input, Not(x.e_input), st).c IN R(<<c>>, c)
    [] d = "hamming" -> LET n == st + Hamming(x.g_input, x.e_input) IN R(Bits(n, Lg(p.N)), n)
    [] d = "mult" -> R(Bits(Num(x.g_input) * Num(x.e_input), p.N), st)
    [] d = "encoder" -> R(Bits((CHOOSE i \in 1..Two[p.logS] : (x.g_input \o x.e_input)[i] = 1) - 1, p.logS), st)
    [] d = "argmax" ->
         LET w == Words(x["in"], p.M)
             i == CHOOSE i \in 1..p.N : \A j \in 1..p.N : Num(w[j]) < Num(w[i]) \/ (Num(w[j]) = Num(w[i]) /\ j <= i)
         IN R(w[i] \o Bits(i - 1, Lg(p.N)), st)
    [] d = "non_secret_test" -> R(IF st = 1 THEN Sum(x.g_input, Not(x.e_input), 1).s ELSE Sum(x.g_input, x.e_input, 0).s, 1 - st)
    [] d = "public_test" ->
         LET n == [r1 |-> Xor(x.e_input, st.r1), r2 |-> Xor(x.g_input, st.r2), r3 |-> Xor(x.p_input, st.r3)]
         IN R(Xor(Xor(Wide(n.r1, 32), Wide(n.r2, 32)), n.r3), n)
    [] d = "matrix_mult_N_M_0" -> R(MatMul(x.g_input, x.e_input, p.N, p.M), st)
    [] d = "matrix_mult_N_M_1" ->    \* a column of the first by a matrix: one element of each is added per cycle
         R(FoldLeft(LAMBDA a, v : a \o Bits(v, p.M), <<>>, st),
           [i \in 1..p.N |-> (st[i] + Dot(Words(x.g_input, p.M), [k \in 1..p.N |-> Part(x.e_input, p.M, p.N * (k - 1) + i - 1)], p.M)) % Two[p.M]])
    [] d = "matrix_mult_N_M_2" -> R(Bits(st, p.M), (st + Dot(Words(x.g_input, p.M), Words(x.e_input, p.M), p.M)) % Two[p.M])
    [] d = "matrix_mult_N_M_3" -> LET n == (st + Num(x.g_input) * Num(x.e_input)) % Two[p.M] IN R(Bits(n, p.M), n)
    [] d = "select" ->
         R(st[Num(x.read_adr) + 1],
           IF x.write_en[1] = 1 THEN [st EXCEPT ![Num(x.write_adr) + 1] = x.write_data]
           ELSE IF x.write_en2[1] = 1 THEN [st EXCEPT ![Num(x.write_adr2) + 1] = x.write_data2]
           ELSE IF x.write_en3[1] = 1 THEN [st EXCEPT ![Num(x.write_adr3) + 1] = x.write_data3] ELSE st)
    [] d = "stackMachine" ->  \* nothing, add, sub, mult, push, negate, and, or; the output is the new top
         LET op == Num(x.e_input)  a == st[1]  b == st[2]  m == Two[p.N]
             t == CASE op = 0 -> a [] op = 1 -> (a + b) % m [] op = 2 -> (a - b) % m [] op = 3 -> (a * b) % m [] op = 4 -> Num(x.g_input)
                    [] op = 5 -> (m - a) % m
                    [] op = 6 -> Num([i \in 1..p.N |-> Bits(a, p.N)[i] * Bits(b, p.N)[i]])
                    [] op = 7 -> Num([i \in 1..p.N |-> IF Bits(a, p.N)[i] + Bits(b, p.N)[i] > 0 THEN 1 ELSE 0])
         IN R(Bits(t, p.N), CASE op \in {0, 5} -> [st EXCEPT ![1] = t]
                              [] op = 4 -> SubSeq(<<t>> \o st, 1, p.S)
                              [] OTHER -> <<t>> \o SubSeq(st, 3, p.S) \o <<0>>)
    [] d = "modmult" ->       \* x * y mod n, from the highest bits of x on; the cycle with start takes x
         LET k == p.N \div p.CC
             step(z, i) == (2 * z + st.x[p.N + 1 - i] * Num(x.y)) % Num(x.n)
             z == FoldLeft(step, st.z, [i \in 1..k |-> i])
         IN R(Bits(z, p.N), IF x.start[1] = 1 THEN [z |-> 0, x |-> x.x] ELSE [z |-> z, x |-> Zeros(k) \o SubSeq(st.x, 1, p.N - k)])
    [] d = "first_nns_comb" -> R(<<>>, [q |-> x.g_input, seen |-> Words(x.e_input, p.W)])
    [] d = "first_nns_comb_td" -> R(<<>>, [q |-> x.g_input, seen |-> Words(x.e_input, 2 * p.W)])
    [] d \in {"first_nns_seq", "first_nns_seq_td", "k_nns_seq"} -> R(<<>>, Append(st, x.e_input))
    [] d \in {"k_nns_seq_td", "knns_seq"} -> R(<<>>, Append(st, x.g_input))
    [] d = "modexp_1_N" ->    \* the exponent's bits, from the highest on, some per cycle
         LET e == Num(Part(x.e_input, p.N, 0)) \div Two[p.N - (st + 1) * (p.N \div p.CC)]
         IN R(Bits(IF e = 0 THEN Num(x.g_input) ELSE Power(Num(x.g_input), e, Num(Part(x.e_input, p.N, 1))), p.N), st + 1)
    [] d = "stable_match_seq" -> R(<<>>, st + 1)
    [] d = "modexp_2N_NN" -> R(Bits(Power(Num(p.m), Num(p.e), Num(p.n)), p.N), st + 1)

(* The neighbour searches may answer with any of several equally near ones.     *)
Searches == {"stable_match_seq", "k_nns_seq_td", "knns_seq", "first_nns_comb", "first_nns_comb_td", "first_nns_seq", "first_nns_seq_td", "k_nns_seq"}
Away(d, a, b) == IF d \in {"first_nns_comb_td", "first_nns_seq_td", "k_nns_seq_td", "knns_seq"} THEN Taxicab(a, b) ELSE Hamming(a, b)
Nearest(d, q, seen, y) == (\E i \in 1..Len(seen) : seen[i] = y) /\ \A i \in 1..Len(seen) : Away(d, q, y) <= Away(d, q, seen[i])
KNearest(d, q, seen, ys) ==
  LET n == IF Len(seen) < Len(ys) THEN Len(seen) ELSE Len(ys)
      in(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
      got == SubSeq(ys, 1, n)
  IN /\ \A i \in 1..(n - 1) : Away(d, q, got[i]) <= Away(d, q, got[i + 1])
     /\ \A i \in 1..n : in(got, got[i]) <= in(seen, got[i])
     /\ \A i \in 1..Len(seen) : in(got, seen[i]) < in(seen, seen[i]) => \A j \in 1..n : Away(d, q, got[j]) <= Away(d, q, seen[i])
(* Stable matchings: nobody of a suitor and a reviewer prefers each other to the  *)
(* partners they got, and every suitor has the best partner of any such matching: *)
(* who asks only those that are still possible never loses one.                   *)
Wishes(b, n) == LET w == Words(b, Lg(n - 1)) IN [i \in 1..n |-> [j \in 1..n |-> Num(w[n * (i - 1) + j]) + 1]]
Place(w, i, v) == CHOOSE j \in 1..Len(w[i]) : w[i][j] = v
Stable(sw, rw, n, m) == Cardinality({m[r] : r \in 1..n}) = n
  /\ \A s \in 1..n, r \in 1..n : m[r] = s \/ LET own == CHOOSE q \in 1..n : m[q] = s
                                               IN Place(sw, s, own) < Place(sw, s, r) \/ Place(rw, r, m[r]) < Place(rw, r, s)
Matched(p, x, y) == LET n == p.S  m == [r \in 1..n |-> Num(Part(y, Lg(n - 1), r - 1)) + 1]
                        sw == TLCEval(Wishes(x.sPref, n))  rw == TLCEval(Wishes(x.rPref, n))
                    IN /\ \A r \in 1..n : m[r] \in 1..n
                       /\ Stable(sw, rw, n, m)
                       /\ n > 4 \/ \A f \in [1..n -> 1..n] : Stable(sw, rw, n, f) => \A r \in 1..n, q \in 1..n : m[r] = f[q] => Place(sw, m[r], r) <= Place(sw, m[r], q)
Accepts(d, p, x, r, y) ==
  CASE d \in {"first_nns_comb", "first_nns_comb_td"} -> Nearest(d, r.st.q, r.st.seen, y)
    [] d \in {"first_nns_seq", "first_nns_seq_td"} -> Nearest(d, x.g_input, r.st, y)
    [] d = "k_nns_seq" -> KNearest(d, x.g_input, r.st, Words(y, Len(x.g_input)))
    [] d \in {"k_nns_seq_td", "knns_seq"} -> KNearest(d, x.e_input, r.st, Words(y, Len(x.g_input)))
    [] d = "stable_match_seq" -> r.st < 2 * p.S * p.S + 4 \/ Matched(p, x, y)
    [] d = "modexp_2N_NN" -> r.st < p.CC \/ y = r.out           \* the power is there in the last cycle
    [] d = "modmult" -> x.start[1] = 1 \/ y = r.out               \* while x is taken, nothing is computed
    [] OTHER -> y = r.out
=============================================================================
