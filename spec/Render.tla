------------------------------- MODULE Render -------------------------------
(* Text forms of numbers: hexadecimal rendering of bit strings (lowest bit     *)
(* first), and the output string a run is presented as.                        *)
EXTENDS Integers, Sequences, SequencesExt

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
BitAt(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
Nibble(b, k) == BitAt(b, 4*k) + 2 * BitAt(b, 4*k + 1) + 4 * BitAt(b, 4*k + 2) + 8 * BitAt(b, 4*k + 3)

(* Digits of exactly n nibbles, most significant first.                        *)
HexN(b, n) == FoldLeft(LAMBDA s, k : s \o HexDigit[Nibble(b, n - k) + 1], "", [k \in 1..n |-> k])

RECURSIVE TopOne(_, _)
TopOne(b, n) == IF n = 0 THEN 0 ELSE IF b[n] = 1 THEN n ELSE TopOne(b, n - 1)
BitLen(b) == TopOne(b, Len(b))                    \* number of significant bits

(* A number in canonical upper-case hexadecimal without leading zeros.         *)
Hex(b) == LET n == BitLen(b) IN IF n = 0 THEN "0" ELSE HexN(b, (n + 3) \div 4)

(* The output of a run as numbers: one for the whole run (cycle 0 lowest), one *)
(* per executed cycle, or the last executed cycle's.                           *)
Flatten(run) == FoldLeft(LAMBDA acc, o : acc \o o, <<>>, run)
Rendered(run, mode) ==
  CASE mode = "consecutive" -> << Hex(Flatten(run)) >>
    [] mode = "separated"   -> [i \in 1..Len(run) |-> Hex(run[i])]
    [] mode = "last"        -> << Hex(run[Len(run)]) >>
=============================================================================
