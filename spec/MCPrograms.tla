------------------------------ MODULE MCPrograms ------------------------------
(* What the example programs compute from given inputs, and that it is what     *)
(* they are for: the relations below do not follow the steps of Programs.       *)
EXTENDS Programs, Json, IOUtils

Sess == ndJsonDeserialize(IOEnv.SESSIONS)     \* [name, g, e]

VARIABLES sid, out                             \* out: <<>>, then the 64 words
vars == <<sid, out>>

Pad(x) == [i \in 1..64 |-> IF i <= Len(x) THEN x[i] ELSE Zero]
Init == sid \in 1..Len(Sess) /\ out = <<>>
Next == out = <<>> /\ out' = TLCEval(Pad(Fn(Sess[sid].name, Sess[sid].g, Sess[sid].e))) /\ sid' = sid
Spec == Init /\ [][Next]_vars

Done == out # <<>>
N == Sess[sid].name
G == Sess[sid].g
E == Sess[sid].e
Shared(n) == [i \in 1..n |-> XorW(G[i], E[i])]

Typed == Done => Len(out) = 64 /\ \A i \in 1..64 : out[i][1] \in 0..65535 /\ out[i][2] \in 0..65535

\* in order, and the same words as often
Sorted == Done /\ N \in {"bubble-sort", "merge-sort"} =>
  LET x == TLCEval(Shared(32)) IN
  /\ \A i \in 1..31 : IF IsNeg(out[i]) = IsNeg(out[i + 1]) THEN ~LessU(out[i + 1], out[i]) ELSE IsNeg(out[i])
  /\ \A i \in 1..32 : Cardinality({j \in 1..32 : out[j] = out[i]}) = Cardinality({j \in 1..32 : x[j] = out[i]})

\* less, exactly when the difference borrows; then the other way round it is not
Compared == Done /\ N = "compare" =>
  LET c == FoldLeft(LAMBDA acc, i : AddC(G[i], NotW(E[i]), acc).c, 1, [i \in 1..32 |-> i]) IN
  /\ (out[1] = <<0, 1>>) = (c = 0)
  /\ out[1] = <<0, 1>> => CompareFn(E, G) = <<Zero>>

\* taking one summand away leaves the other one, and the summands commute
Summed == Done /\ N \in {"sum", "temp"} =>
  /\ SumFn(E, G) = SubSeq(out, 1, 32)
  /\ FoldLeft(LAMBDA acc, i : LET d == AddC(out[i], NotW(E[i]), acc.c) IN [c |-> d.c, ok |-> acc.ok /\ d.w = G[i]], [c |-> 1, ok |-> TRUE], [i \in 1..32 |-> i]).ok

\* by shifts and additions
Multiplied == Done /\ N = "mul" =>
  out[1] = FoldLeft(LAMBDA acc, k : IF Bit(E[1], k) = 1 THEN Add(acc, Shl(G[1], k)) ELSE acc, Zero, Range0(32))

\* the transpose of a product is the product of the transposes, the other way round
Transposed(x) == [k \in 1..9 |-> x[3 * ((k - 1) % 3) + ((k - 1) \div 3) + 1]]
Products == Done /\ N = "matrix-mul" => Transposed(out) = MatrixFn(Transposed(E), Transposed(G))

Distance == Done /\ N = "hamming" => out = Pad(HammingFn(E, G)) /\ (out[1] = Zero) = (G[1] = E[1]) /\ out[1][2] \in 0..32

\* no edge leads to a vertex on a shorter way, and every vertex but the first is
\* reached by an edge that takes the whole difference
Shortest == Done /\ N = "dijkstra" =>
  LET d == [v \in 0..7 |-> Signed(out[v + 1])]
      Edge(u, v) == Weight(G, E, u, v) # 0
  IN /\ d[0] = 0
     /\ \A u, v \in 0..7 : d[u] # Far /\ Edge(u, v) => d[v] # Far /\ d[v] <= d[u] + Weight(G, E, u, v)
     /\ \A v \in 1..7 : d[v] # Far => \E u \in 0..7 \ {v} : d[u] # Far /\ Edge(u, v) /\ d[v] = d[u] + Weight(G, E, u, v)

\* what the series give, as far as they go
Turned == Done /\ N = "cordic" =>
  LET t == Signed(XorW(G[1], E[1])) \div 65536
      Close(w, s) == (Signed(w) \div 65536) - s \in -12..12
  IN Close(out[1], Sin14(t)) /\ Close(out[2], Cos14(t))

\* known values
ASSUME {SBox[x] : x \in 0..255} = 0..255 /\ SBox[0] = 99 /\ SBox[83] = 237
ASSUME Encrypt([i \in 1..16 |-> i - 1], [i \in 1..16 |-> 17 * (i - 1)])       \* FIPS 197, C.1
         = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME FlattenSeq([i \in 1..8 |-> Bytes(Sha3Fn(<< <<770, 256>>, <<1798, 1284>> >>, << <<2826, 2312>>, <<3854, 3340>> >>)[i])])   \* of 00 01 .. 0f
         = <<57, 70, 45, 42, 35, 32, 248, 218, 87, 42, 151, 176, 179, 148, 115, 212, 49, 46, 2, 40, 178, 62, 44, 47, 224, 174, 155, 108, 103, 242, 52, 60>>

Emit == Done => PrintT("@@" \o ToJson([sid |-> sid, out |-> out]))
=============================================================================
