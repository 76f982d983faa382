------------------------------ MODULE Encoding ------------------------------
(* Text and byte forms of numbers.  A number is its bits, lowest first, with a *)
(* width of its own; TLC's integers are too small for what is converted here,  *)
(* so decimal text is computed digit by digit.                                 *)
EXTENDS Render, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxWidth, MaxVals

Rep(x, n) == [i \in 1..n |-> x]
Text(digits) == FoldLeft(LAMBDA s, d : s \o ToString(d), "", digits)
Cut(b, w) == [i \in 1..w |-> BitAt(b, i - 1)]           \* to width w
Flip(b) == [i \in 1..Len(b) |-> 1 - b[i]]
Inc(b) == LET first0 == IF \E i \in 1..Len(b) : b[i] = 0 THEN CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..(i - 1) : b[j] = 1 ELSE Len(b) + 1
          IN [i \in 1..Len(b) |-> IF i < first0 THEN 0 ELSE IF i = first0 THEN 1 ELSE b[i]]
Minus(b) == Inc(Flip(b))
Negative(b) == Len(b) > 0 /\ b[Len(b)] = 1

\* 2 * ds + b on decimal digits, lowest first
DoubleAdd(ds, b) ==
  LET r == FoldLeft(LAMBDA acc, d : [c |-> (2 * d + acc.c) \div 10, o |-> Append(acc.o, (2 * d + acc.c) % 10)], [c |-> b, o |-> <<>>], ds)
  IN IF r.c > 0 THEN Append(r.o, r.c) ELSE r.o
Decimal(b) == LET ds == FoldLeft(LAMBDA acc, x : DoubleAdd(acc, x), <<>>, Reverse(b)) IN IF ds = <<>> THEN "0" ELSE Text(Reverse(ds))
SignedDecimal(b) == IF Negative(b) THEN "-" \o Decimal(Minus(b)) ELSE Decimal(b)

Binary(b) == Text(Reverse(b))
FromNibbles(d) == FoldLeft(LAMBDA acc, v : acc \o <<v % 2, v \div 2 % 2, v \div 4 % 2, v \div 8>>, <<>>, Reverse(d))
HexPadded(b, n) == LET h == (BitLen(b) + 3) \div 4 IN HexN(b, IF h > n THEN h ELSE IF n = 0 /\ h = 0 THEN 1 ELSE n)

----------------------------------------------------------------------------
(* Several values of fixed widths in one number: the first is the most         *)
(* significant one, and the lowest `skip' bits belong to nobody.               *)
Pack(vs, ws) == FoldLeft(LAMBDA acc, i : Cut(vs[i], ws[i]) \o acc, <<>>, [i \in 1..Len(vs) |-> i])
SumTo(ws, n) == FoldLeft(LAMBDA a, w : a + w, 0, SubSeq(ws, 1, n))
Unpack(b, ws, skip) ==
  LET total == SumTo(ws, Len(ws)) IN
  [i \in 1..Len(ws) |-> LET lo == skip + total - SumTo(ws, i) IN [k \in 1..ws[i] |-> BitAt(b, lo + k - 1)]]
\* who gets which output bit: 1 for the garbler
Shares(g, e, left) == IF left THEN Rep(0, e) \o Rep(1, g) ELSE Rep(1, g) \o Rep(0, e)
FileText(lines) == FoldLeft(LAMBDA acc, l : l \o acc, "", lines)
Transposed(rows, w) == [c \in 1..w |-> [r \in 1..Len(rows) |-> BitAt(rows[r], c - 1)]]
Differ(x, y, w) == [i \in 1..w |-> IF BitAt(x, i - 1) # BitAt(y, i - 1) THEN 1 ELSE 0]

----------------------------------------------------------------------------
(* Building up a packed number value by value.                                 *)
VARIABLES vals, widths, packed, skip
vars == <<vals, widths, packed, skip>>
Bits(w) == [1..w -> {0, 1}]
Init == vals = <<>> /\ widths = <<>> /\ skip \in 0..MaxWidth /\ packed = Rep(1, skip)
Add == /\ Len(vals) < MaxVals
       /\ \E w \in 1..MaxWidth : \E v \in Bits(w) :
            /\ vals' = Append(vals, v) /\ widths' = Append(widths, w)
            /\ packed' = SubSeq(packed, 1, skip) \o v \o SubSeq(packed, skip + 1, Len(packed))
       /\ UNCHANGED skip
Spec == Init /\ [][Add]_vars

ReadBack == Unpack(packed, widths, skip) = vals
SamePlace == SubSeq(packed, skip + 1, Len(packed)) = Pack(vals, widths)
\* hexadecimal and binary text determine the number, digit by digit
HexKeeps == LET n == (Len(packed) + 3) \div 4 IN FromNibbles([i \in 1..n |-> Nibble(packed, n - i)]) = Cut(packed, 4 * n)
Signs == \A i \in 1..Len(vals) : Minus(Minus(vals[i])) = vals[i]
           /\ (Negative(vals[i]) => SignedDecimal(vals[i]) = "-" \o Decimal(Minus(vals[i])))
Twice == Transposed(Transposed(vals, MaxWidth), Len(vals)) = [i \in 1..Len(vals) |-> Cut(vals[i], MaxWidth)]
SharesCount == LET s == Shares(Len(vals), skip, TRUE) IN
   /\ Len(s) = Len(vals) + skip /\ Cardinality({i \in 1..Len(s) : s[i] = 1}) = Len(vals)
   /\ Shares(Len(vals), skip, FALSE) = Reverse(s)

----------------------------------------------------------------------------
(* What the conversions give for the cases of a file.                          *)
Asked == IF "CASES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.CASES) ELSE <<>>
Answer(q) ==
  CASE q.op = "dec2bin"  -> <<Binary(Cut(q.v, q.w))>>
    [] q.op = "bin2dec"  -> <<IF q.signed THEN SignedDecimal(q.v) ELSE Decimal(q.v)>>
    [] q.op = "hex2bin"  -> <<Binary(FromNibbles(q.d))>>
    [] q.op = "bin2hex"  -> <<Hex(q.v)>>
    [] q.op = "hex"      -> <<HexPadded(q.v, q.pad)>>
    [] q.op = "mask"     -> <<Hex(Shares(q.g, q.e, q.left))>>
    [] q.op = "fmtin"    -> <<Hex(Pack(q.vs, q.ws))>>
    [] q.op = "parseout" -> LET u == Unpack(q.v, q.ws, q.skip) IN [i \in 1..Len(q.ws) |-> SignedDecimal(u[i])]
    [] q.op = "file"     -> <<FileText(q.lines)>>
    [] q.op = "block"    -> <<HexN(Cut(FromNibbles(q.d), 128), 32)>>
    [] q.op = "xor"      -> <<Hex(Differ(q.v, q.u, q.w))>>
    [] q.op = "not"      -> <<Hex(Flip(Cut(q.v, q.w)))>>
    [] q.op = "ones"     -> <<Hex(Rep(1, q.w))>>
    [] q.op = "switch"   -> LET t == Transposed(q.rows, q.w) IN [i \in 1..q.w |-> Hex(t[i])]
AskInit == vals = <<>> /\ widths = <<>> /\ packed = <<>> /\ skip \in 1..Len(Asked)
AskSpec == AskInit /\ [][FALSE]_vars
Answers == PrintT("@@" \o ToJson([id |-> skip, r |-> Answer(Asked[skip])]))
=============================================================================
