-------------------------------- MODULE Words --------------------------------
(* 32-bit words as pairs <<high, low>> of 16-bit halves (TLC's own integers     *)
(* have 32 bits and a sign).                                                   *)
EXTENDS Integers, Sequences, Bitwise

H == 65536
Zero == <<0, 0>>
W(n) == <<n \div H, n % H>>                       \* of a small natural number
Pow2 == [k \in 0..30 |-> 2 ^ k]
IsNeg(w) == w[1] >= 32768
Signed(w) == (IF IsNeg(w) THEN w[1] - H ELSE w[1]) * H + w[2]
OfSigned(n) == <<(n \div H) % H, n % H>>           \* \div rounds down
Bytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
OfBytes(b) == <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>

XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
NotW(a) == <<H - 1 - a[1], H - 1 - a[2]>>
LessU(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* The sum of two words and a carry: its word, its carry, its signed overflow.  *)
AddC(a, b, c) ==
  LET l == a[2] + b[2] + c
      h == a[1] + b[1] + l \div H
      w == <<h % H, l % H>>
  IN [w |-> w, c |-> h \div H, v |-> IsNeg(a) = IsNeg(b) /\ IsNeg(w) # IsNeg(a)]
Add(a, b) == AddC(a, b, 0).w
Sub(a, b) == AddC(a, NotW(b), 1).w

(* Shifts by 0..31.                                                            *)
Shl(a, n) == IF n = 0 THEN a ELSE IF n >= 16 THEN <<(a[2] % Pow2[32 - n]) * Pow2[n - 16], 0>>
             ELSE << (a[1] % Pow2[16 - n]) * Pow2[n] + a[2] \div Pow2[16 - n], (a[2] % Pow2[16 - n]) * Pow2[n] >>
Shr(a, n) == IF n = 0 THEN a ELSE IF n >= 16 THEN <<0, a[1] \div Pow2[n - 16]>>
             ELSE << a[1] \div Pow2[n], (a[1] % Pow2[n]) * Pow2[16 - n] + a[2] \div Pow2[n] >>
Ones(n) == IF n = 0 THEN Zero ELSE IF n = 32 THEN <<H - 1, H - 1>> ELSE NotW(Shr(<<H - 1, H - 1>>, n))   \* the n highest bits
Asr(a, n) == IF IsNeg(a) THEN OrW(Shr(a, n), Ones(n)) ELSE Shr(a, n)
Ror(a, n) == IF n = 0 THEN a ELSE OrW(Shr(a, n), Shl(a, 32 - n))
Bit(a, n) == IF n >= 16 THEN (a[1] \div Pow2[n - 16]) % 2 ELSE (a[2] \div Pow2[n]) % 2

(* The low 32 bits of a product.                                               *)
Half(x, y) ==      \* 16 x 16 bits
  LET p == (x % 256) * y   q == (x \div 256) * y      \* 24 bits each
  IN Add(W(p), <<q \div 256, (q % 256) * 256>>)
Mul(a, b) == Add(Half(a[2], b[2]), <<Add(Half(a[1], b[2]), Half(a[2], b[1]))[2], 0>>)
=============================================================================
