------------------------------- MODULE Programs -------------------------------
(* What the example programs of the processor (a23) compute from the garbler's *)
(* and the evaluator's 64 words: the words they write from the start of the     *)
(* output.                                                                     *)
EXTENDS Words, SequencesExt, FiniteSetsExt, TLC

Range0(n) == [i \in 1..n |-> i - 1]

\* the sum of two numbers of 1024 bits
SumFn(g, e) == FoldLeft(LAMBDA acc, i : LET s == AddC(g[i], e[i], acc.c) IN [o |-> Append(acc.o, s.w), c |-> s.c],
                        [o |-> <<>>, c |-> 0], [i \in 1..32 |-> i]).o
\* whether the first of two numbers of 1024 bits is the smaller one
CompareFn(g, e) == << IF FoldLeft(LAMBDA acc, i : IF g[i] = e[i] THEN acc ELSE LessU(g[i], e[i]), FALSE, [i \in 1..32 |-> i]) THEN <<0, 1>> ELSE Zero >>
MulFn(g, e) == << Mul(g[1], e[1]) >>
MemTestFn(g, e) == [i \in 1..64 |-> <<0, i - 1>>]
\* the product of two 3 x 3 matrices
MatrixFn(g, e) == [k \in 1..9 |-> LET i == (k - 1) \div 3  j == (k - 1) % 3
                     IN FoldLeft(LAMBDA acc, m : Add(acc, Mul(g[3 * i + m + 1], e[3 * m + j + 1])), Zero, Range0(3))]
\* how many bits of two words differ
HammingFn(g, e) == LET x == XorW(g[1], e[1]) IN << <<0, FoldLeft(LAMBDA acc, k : acc + Bit(x, k), 0, Range0(32))>> >>
\* shared words, in the order of the signed numbers
SortFn(g, e) == LET x == [i \in 1..32 |-> Signed(XorW(g[i], e[i]))]
                    s == SortSeq(x, LAMBDA a, b : a < b)
                IN [i \in 1..32 |-> OfSigned(s[i])]

(* The lengths of the shortest paths from the first of 8 vertices; the weights  *)
(* are shared, a weight of 0 is no edge.  Domain: the longest path is shorter   *)
(* than Far.                                                                   *)
Far == 32767
Weight(g, e, u, v) == Signed(XorW(g[8 * u + v + 1], e[8 * u + v + 1]))
Relax(g, e, d) == [v \in 0..7 |-> Min({d[v]} \cup {d[u] + Weight(g, e, u, v) : u \in {u \in 0..7 : d[u] # Far /\ Weight(g, e, u, v) # 0}})]
Paths(g, e) == FoldLeft(LAMBDA d, k : Relax(g, e, d), [v \in 0..7 |-> IF v = 0 THEN 0 ELSE Far], Range0(8))
DijkstraFn(g, e) == LET d == Paths(g, e) IN [v \in 1..8 |-> W(d[v - 1])]

(* Sine and cosine of a shared angle between -pi/2 and pi/2, all of them        *)
(* multiples of 2^-30: by rotations through the angles atan(2^-k).             *)
Atan == <<843314857, 497837829, 263043837, 133525159, 67021687, 33543516, 16775851, 8388437, 4194283, 2097149, 1048576, 524288, 262144, 131072, 65536,
          32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>
Rotated(theta) == FoldLeft(LAMBDA p, k : LET s == IF p.z < 0 THEN -1 ELSE 1
                                         IN [x |-> p.x - s * (p.y \div Pow2[k]), y |-> p.y + s * (p.x \div Pow2[k]), z |-> p.z - s * Atan[k + 1]],
                           [x |-> 652032874, y |-> 0, z |-> theta], Range0(31))
CordicFn(g, e) == LET p == Rotated(Signed(XorW(g[1], e[1]))) IN << OfSigned(p.y), OfSigned(p.x) >>
(* The same by their series, as multiples of 2^-14.                            *)
Series(x, first, k0) == FoldLeft(LAMBDA acc, k : LET t == -((((acc.t * x) \div 16384) * x) \div 16384) \div ((2 * k + k0) * (2 * k + k0 - 1)) IN [t |-> t, s |-> acc.s + t],
                                 [t |-> first, s |-> first], <<1, 2, 3, 4, 5, 6>>).s
Sin14(x) == Series(x, x, 1)
Cos14(x) == Series(x, 16384, 0)

(* AES-128: the garbler's key, the evaluator's message.                        *)
XTime(x) == LET y == 2 * x IN IF y > 255 THEN (y - 256) ^^ 27 ELSE y
GMul(x, y) == FoldLeft(LAMBDA acc, k : [p |-> IF (y \div Pow2[k]) % 2 = 1 THEN acc.p ^^ acc.a ELSE acc.p, a |-> XTime(acc.a)], [p |-> 0, a |-> x], Range0(8)).p
\* 3 generates the field's units
Exp == FoldLeft(LAMBDA acc, k : Append(acc, GMul(acc[Len(acc)], 3)), <<1>>, Range0(254))
Log == [x \in 1..255 |-> CHOOSE k \in 0..254 : Exp[k + 1] = x]
FieldInverse(x) == IF x = 0 THEN 0 ELSE Exp[((255 - Log[x]) % 255) + 1]
RotL8(x, n) == ((x * Pow2[n]) % 256) + (x \div Pow2[8 - n])
SBox == [x \in 0..255 |-> LET b == FieldInverse(x) IN ((((b ^^ RotL8(b, 1)) ^^ RotL8(b, 2)) ^^ RotL8(b, 3)) ^^ RotL8(b, 4)) ^^ 99]
AllBytes(ws, n) == FlattenSeq([i \in 1..n |-> Bytes(ws[i])])
Column(s, i) == SubSeq(s, 4 * i + 1, 4 * i + 4)
XorS(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
\* the key schedule, column by column
Schedule(key) == FoldLeft(LAMBDA acc, i :
    LET last == acc.k[Len(acc.k)]
        t == IF i % 4 = 0 THEN << SBox[last[2]] ^^ acc.r, SBox[last[3]], SBox[last[4]], SBox[last[1]] >> ELSE last
    IN [k |-> Append(acc.k, XorS(acc.k[i - 3], t)), r |-> IF i % 4 = 0 THEN XTime(acc.r) ELSE acc.r],
  [k |-> [i \in 1..4 |-> Column(key, i - 1)], r |-> 1], [i \in 1..40 |-> i + 3]).k
RoundKey(sch, r) == FlattenSeq(SubSeq(sch, 4 * r + 1, 4 * r + 4))
SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[((i - 1 + 4 * ((i - 1) % 4)) % 16) + 1]]])
MixColumn(c) == TLCEval([i \in 1..4 |-> ((GMul(c[i], 2) ^^ GMul(c[(i % 4) + 1], 3)) ^^ c[((i + 1) % 4) + 1]) ^^ c[((i + 2) % 4) + 1]])
Mix(s) == FlattenSeq([i \in 1..4 |-> MixColumn(Column(s, i - 1))])
Encrypt(key, msg) == LET sch == Schedule(key)
  IN FoldLeft(LAMBDA s, r : XorS(IF r < 10 THEN Mix(SubShift(s)) ELSE SubShift(s), RoundKey(sch, r)), XorS(msg, RoundKey(sch, 0)), [r \in 1..10 |-> r])
AesFn(g, e) == LET c == Encrypt(AllBytes(g, 4), AllBytes(e, 4)) IN [i \in 1..4 |-> OfBytes(Column(c, i - 1))]
SboxFn(g, e) == << <<0, SBox[(g[1][2] ^^ e[1][2]) % 256]>> >>

(* SHA3-256 of the garbler's and then the evaluator's two words.  A lane is     *)
(* four 16-bit parts, the lowest one first; lane x + 5y of the state.          *)
XorL(a, b) == [i \in 1..4 |-> a[i] ^^ b[i]]
AndNotL(a, b) == [i \in 1..4 |-> (H - 1 - a[i]) & b[i]]
RotL(a, n) == LET q == n \div 16  r == n % 16
              IN [i \in 1..4 |-> LET hi == a[((i - 1 - q) % 4) + 1]  lo == a[((i - 2 - q) % 4) + 1]
                                 IN IF r = 0 THEN hi ELSE ((hi % Pow2[16 - r]) * Pow2[r]) + (lo \div Pow2[16 - r])]
Turn == \* the rotation of every lane: (t+1)(t+2)/2 along the walk (1,0), (y, 2x+3y), ...
  FoldLeft(LAMBDA acc, t : [at |-> <<acc.at[2], (2 * acc.at[1] + 3 * acc.at[2]) % 5>>,
                            r |-> [acc.r EXCEPT ![acc.at[1] + 5 * acc.at[2]] = (((t + 1) * (t + 2)) \div 2) % 64]],
           [at |-> <<1, 0>>, r |-> [l \in 0..24 |-> 0]], Range0(24)).r
\* the feedback register behind the round constants: its output bits
Feedback == FoldLeft(LAMBDA acc, t : LET x == 2 * acc.x IN [x |-> IF x > 255 THEN (x - 256) ^^ 113 ELSE x, o |-> Append(acc.o, acc.x % 2)],
                     [x |-> 1, o |-> <<>>], Range0(255)).o
Constant(r) == FoldLeft(LAMBDA acc, j : LET b == Feedback[((7 * r + j) % 255) + 1]  p == Pow2[j] - 1
                                        IN [acc EXCEPT ![(p \div 16) + 1] = @ + b * Pow2[p % 16]], <<0, 0, 0, 0>>, Range0(7))
KeccakRound(a, r) ==
  LET c == [x \in 0..4 |-> XorL(a[x], XorL(a[x + 5], XorL(a[x + 10], XorL(a[x + 15], a[x + 20]))))]
      d == [x \in 0..4 |-> XorL(c[(x + 4) % 5], RotL(c[(x + 1) % 5], 1))]
      b == [l \in 0..24 |-> RotL(XorL(a[l], d[l % 5]), Turn[l])]
      \* lane (x, y) moves to (y, 2x + 3y): what comes to (x, y) was at (x + 3y, x)
      p == [l \in 0..24 |-> LET x == l % 5  y == l \div 5 IN b[((x + 3 * y) % 5) + 5 * x]]
      q == [l \in 0..24 |-> LET x == l % 5  y == 5 * (l \div 5) IN XorL(p[l], AndNotL(p[((x + 1) % 5) + y], p[((x + 2) % 5) + y]))]
  IN [q EXCEPT ![0] = XorL(@, Constant(r))]
Keccak(a) == FoldLeft(KeccakRound, a, Range0(24))
Sha3Fn(g, e) ==
  LET lane(ws) == <<ws[1][2], ws[1][1], ws[2][2], ws[2][1]>>
      a == Keccak([l \in 0..24 |-> CASE l = 0 -> lane(g) [] l = 1 -> lane(e) [] l = 2 -> <<6, 0, 0, 0>> [] l = 16 -> <<0, 0, 0, 32768>> [] OTHER -> <<0, 0, 0, 0>>])
  IN [i \in 1..8 |-> LET l == a[(i - 1) \div 2] IN IF i % 2 = 1 THEN <<l[2], l[1]>> ELSE <<l[4], l[3]>>]

Fn(name, g, e) ==
  CASE name \in {"sum", "temp"} -> SumFn(g, e) [] name = "mul" -> MulFn(g, e) [] name = "mem-test" -> MemTestFn(g, e)
    [] name = "matrix-mul" -> MatrixFn(g, e) [] name \in {"bubble-sort", "merge-sort"} -> SortFn(g, e)
    [] name = "compare" -> CompareFn(g, e) [] name = "hamming" -> HammingFn(g, e) [] name = "cordic" -> CordicFn(g, e)
    [] name = "dijkstra" -> DijkstraFn(g, e) [] name = "aes" -> AesFn(g, e) [] name = "sbox" -> SboxFn(g, e) [] name = "sha3" -> Sha3Fn(g, e)
=============================================================================
