------------------------------- MODULE MCCipher -------------------------------
(* The designs of AES-128, of the permutation of SHA3 and of the rotation of a   *)
(* point (CORDIC): what they have given out when they are done, against          *)
(* Programs.tla, which has the first two from the standards.                     *)
EXTENDS Programs, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.SESSIONS)   \* [d, p, ini, x: per cycle, y: observed outputs per cycle]

Octets(b) == [i \in 1..(Len(b) \div 8) |-> FoldLeft(LAMBDA a, k : a + b[8 * i - 8 + k] * Pow2[k - 1], 0, [k \in 1..8 |-> k])]
OctetBits(o) == FlattenSeq([i \in 1..Len(o) |-> [k \in 1..8 |-> (o[i] \div Pow2[k - 1]) % 2]])
\* lanes in the order of the standard have the highest place of the state first
Quarter(b, at) == FoldLeft(LAMBDA a, k : a + b[at + k] * Pow2[k - 1], 0, [k \in 1..16 |-> k])
Lanes(b) == [l \in 0..24 |-> [q \in 1..4 |-> Quarter(b, 64 * (24 - l) + 16 * (q - 1))]]
LaneBits(a) == FlattenSeq([i \in 1..25 |-> FlattenSeq([q \in 1..4 |-> [k \in 1..16 |-> (a[25 - i][q] \div Pow2[k - 1]) % 2]])])
State(g, e) == Lanes(g \o e \o [i \in 1..(1600 - Len(g) - Len(e)) |-> 0])
Rounds(a, n) == FoldLeft(KeccakRound, a, Range0(n))

\* the cycles after which the output is the result, and the result
Due(r) == CASE r.d = "aes_1cc" -> 1..Len(r.x) [] r.d = "aes_11cc" -> {11} [] r.d = "sha3_comb" -> 1..Len(r.x) [] r.d = "sha3_seq" -> {r.p.CC}
            [] r.d = "cordic" -> {r.p.FRAC + 2}
Result(r, k) ==
  CASE r.d = "aes_1cc" -> OctetBits(Encrypt(Octets(r.x[k].g_input), Octets(r.x[k].e_input)))
    [] r.d = "aes_11cc" -> OctetBits(Encrypt(Octets(r.ini.g_init), Octets(r.ini.e_init)))
    [] r.d = "sha3_comb" -> LaneBits(Rounds(State(r.x[k].g_input, r.x[k].e_input), 24 \div r.p.CC))
    [] r.d = "sha3_seq" -> LaneBits(Rounds(State(r.ini.g_init, r.ini.e_init), 24))

(* A rotated point: <<z, y, x, done>> from the lowest bits on.  Values are read as *)
(* multiples of 2^-14; the rotation lengthens by 26981 / 16384.                   *)
Top16(b) == LET n == Quarter(b, Len(b) - 16) IN IF n > 32767 THEN n - 65536 ELSE n
Close(a, b) == a - b < 28 /\ b - a < 28
Turned(r, y) ==
  LET L == r.p.FRAC + 2  v(b, i) == Top16(SubSeq(b, L * i + 1, L * i + L))
      x0 == v(r.ini.g_init, 1)  y0 == v(r.ini.g_init, 0)  z == v(r.ini.e_init, 0)
      s == Sin14(z)  c == Cos14(z)
  IN /\ Close(v(y, 2), (((x0 * c - y0 * s) \div 16384) * 26981) \div 16384)
     /\ Close(v(y, 1), (((x0 * s + y0 * c) \div 16384) * 26981) \div 16384)
     /\ Close(v(y, 0), 0)
     /\ y[3 * L + 1] = 1

VARIABLES sid, k, due
vars == <<sid, k, due>>
Init == sid \in 1..Len(Runs) /\ k = 0 /\ due = <<>>
Next == k < Len(Runs[sid].x) /\ k' = k + 1 /\ sid' = sid /\ due' = TLCEval(IF Runs[sid].d = "cordic" THEN (IF k' \in Due(Runs[sid]) /\ ~ Turned(Runs[sid], Runs[sid].y[k']) THEN <<2>> ELSE <<>>) ELSE IF k' \in Due(Runs[sid]) THEN Result(Runs[sid], k') ELSE <<>>)
Spec == Init /\ [][Next]_vars

Judged == due = <<>> \/ due = Runs[sid].y[k] \/ PrintT("@@" \o ToJson([sid |-> sid, k |-> k, out |-> due]))
Width == due = <<>> \/ Runs[sid].d = "cordic" \/ Len(due) = IF Runs[sid].d \in {"aes_1cc", "aes_11cc"} THEN 128 ELSE 1600
\* the reading of blocks loses nothing
Blocks == k = 0 /\ Runs[sid].d # "cordic" => LET r == Runs[sid]  b == IF r.d \in {"aes_11cc", "sha3_seq"} THEN r.ini.g_init ELSE r.x[1].g_input
                   IN OctetBits(Octets(b)) = b /\ SubSeq(LaneBits(State(b, b)), 1, Len(b)) = b
\* FIPS-197, appendix B; the permutation of the zero state (first lane f1258f7940e1dde7)
Standard == sid = 1 /\ k = 0 =>
    /\ Encrypt(<<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>, <<50, 67, 246, 168, 136, 90, 48, 141, 49, 49, 152, 162, 224, 55, 7, 52>>)
         = <<57, 37, 132, 29, 2, 220, 9, 251, 220, 17, 133, 151, 25, 106, 11, 50>>
    /\ Rounds([l \in 0..24 |-> <<0, 0, 0, 0>>], 24)[0] = <<56807, 16609, 36729, 61733>>
=============================================================================
