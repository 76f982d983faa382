--------------------------------- MODULE Arm ---------------------------------
(* The processor (ARM, version 2a) as far as the example programs use it: data  *)
(* processing, multiplications, single and multiple transfers, branches.       *)
(*                                                                             *)
(* Memory: the program image from address 0 (writable: .data and .bss are in    *)
(* it), 64 words of the garbler (0x01000000), of the evaluator (0x02000000),    *)
(* both read-only, of output (0x03000000) and of stack (0x04000000).            *)
EXTENDS Words, SequencesExt, TLC

F(i, hi, lo) == \* bits hi..lo of a word, as a number (less than 2^16)
  IF lo >= 16 THEN (i[1] \div Pow2[lo - 16]) % Pow2[hi - lo + 1]
  ELSE IF hi < 16 THEN (i[2] \div Pow2[lo]) % Pow2[hi - lo + 1]
  ELSE (i[2] \div Pow2[lo]) + (i[1] % Pow2[hi - 15]) * Pow2[16 - lo]

(* A machine: registers 0..14, pc (a byte address), flags, image, output, stack, *)
(* the two inputs and what went wrong.                                          *)
Machine(image, g, e) == [r |-> [k \in 0..14 |-> Zero], pc |-> 0, n |-> FALSE, z |-> FALSE, c |-> 0, v |-> FALSE,
                         img |-> image, out |-> [k \in 1..64 |-> Zero], stk |-> [k \in 1..64 |-> Zero], g |-> g, e |-> e, bad |-> ""]

Holds(m, cond) ==
  CASE cond = 0 -> m.z [] cond = 1 -> ~m.z [] cond = 2 -> m.c = 1 [] cond = 3 -> m.c = 0 [] cond = 4 -> m.n [] cond = 5 -> ~m.n
    [] cond = 6 -> m.v [] cond = 7 -> ~m.v [] cond = 8 -> m.c = 1 /\ ~m.z [] cond = 9 -> m.c = 0 \/ m.z [] cond = 10 -> m.n = m.v [] cond = 11 -> m.n # m.v
    [] cond = 12 -> ~m.z /\ m.n = m.v [] cond = 13 -> m.z \/ m.n # m.v [] cond = 14 -> TRUE [] OTHER -> FALSE

(* Register k as an operand; the pc is ahead by some bytes.                     *)
Reg(m, k, ahead) == IF k = 15 THEN W(m.pc + ahead) ELSE m.r[k]
\* writing the pc is a jump; its two lowest (and six highest) bits are no address
Goto(m, w) == [m EXCEPT !.pc = (w[1] % 1024) * H + w[2] - (w[2] % 4)]
Put(m, k, w) == IF k = 15 THEN Goto(m, w) ELSE [m EXCEPT !.r[k] = w]

Index(a) == (a[2] \div 4) + 1
Mapped(m, a, write) == CASE a[1] = 0 -> Index(a) <= Len(m.img) [] a[1] \in {256, 512} -> ~write /\ a[2] < 256 [] a[1] \in {768, 1024} -> a[2] < 256 [] OTHER -> FALSE
Load(m, a) == LET i == Index(a) IN
  IF ~Mapped(m, a, FALSE) THEN Zero
  ELSE CASE a[1] = 0 -> m.img[i] [] a[1] = 256 -> m.g[i] [] a[1] = 512 -> m.e[i] [] a[1] = 768 -> m.out[i] [] OTHER -> m.stk[i]
Store(m, a, w) == LET i == Index(a) IN
  IF ~Mapped(m, a, TRUE) THEN [m EXCEPT !.bad = "writes outside of the memory"]
  ELSE CASE a[1] = 0 -> [m EXCEPT !.img[i] = w] [] a[1] = 768 -> [m EXCEPT !.out[i] = w] [] OTHER -> [m EXCEPT !.stk[i] = w]

(* The shifter: the word and the carry.  An immediate amount of 0 means 32 for  *)
(* LSR and ASR, and a rotation through the carry for ROR.                       *)
Shift(m, w, kind, amt, imm) ==
  IF amt = 0 /\ (~imm \/ kind = 0) THEN [w |-> w, c |-> m.c]
  ELSE IF amt = 0 /\ kind = 3 THEN [w |-> OrW(Shr(w, 1), <<m.c * 32768, 0>>), c |-> Bit(w, 0)]
  ELSE LET n == IF amt = 0 THEN 32 ELSE amt IN
    CASE kind = 0 -> [w |-> IF n > 31 THEN Zero ELSE Shl(w, n), c |-> IF n > 32 THEN 0 ELSE Bit(w, 32 - n)]
      [] kind = 1 -> [w |-> IF n > 31 THEN Zero ELSE Shr(w, n), c |-> IF n > 32 THEN 0 ELSE Bit(w, n - 1)]
      [] kind = 2 -> [w |-> IF n > 31 THEN (IF IsNeg(w) THEN Ones(32) ELSE Zero) ELSE Asr(w, n), c |-> Bit(w, IF n > 31 THEN 31 ELSE n - 1)]
      [] OTHER -> LET x == Ror(w, n % 32) IN [w |-> x, c |-> Bit(x, 31)]

Operand2(m, i) ==
  IF F(i, 25, 25) = 1
  THEN LET rot == 2 * F(i, 11, 8)  x == Ror(<<0, F(i, 7, 0)>>, rot) IN [w |-> x, c |-> IF rot = 0 THEN m.c ELSE Bit(x, 31)]
  ELSE IF F(i, 4, 4) = 1 THEN Shift(m, Reg(m, F(i, 3, 0), 12), F(i, 6, 5), m.r[F(i, 11, 8)][2] % 256, FALSE)
  ELSE Shift(m, Reg(m, F(i, 3, 0), 8), F(i, 6, 5), F(i, 11, 7), TRUE)

Processing(m, i) ==
  LET b == Operand2(m, i)
      a == Reg(m, F(i, 19, 16), IF F(i, 25, 25) = 0 /\ F(i, 4, 4) = 1 THEN 12 ELSE 8)
      op == F(i, 24, 21)
      d == F(i, 15, 12)
      logic(w) == [w |-> w, c |-> b.c, v |-> m.v]
      x == CASE op \in {0, 8} -> logic(AndW(a, b.w)) [] op \in {1, 9} -> logic(XorW(a, b.w))
             [] op \in {2, 10} -> AddC(a, NotW(b.w), 1) [] op = 3 -> AddC(b.w, NotW(a), 1) [] op \in {4, 11} -> AddC(a, b.w, 0)
             [] op = 5 -> AddC(a, b.w, m.c) [] op = 6 -> AddC(a, NotW(b.w), m.c) [] op = 7 -> AddC(b.w, NotW(a), m.c)
             [] op = 12 -> logic(OrW(a, b.w)) [] op = 13 -> logic(b.w) [] op = 14 -> logic(AndW(a, NotW(b.w))) [] OTHER -> logic(NotW(b.w))
      f == IF F(i, 20, 20) = 1 /\ d # 15 THEN [m EXCEPT !.n = IsNeg(x.w), !.z = (x.w = Zero), !.c = x.c, !.v = x.v] ELSE m
      nx == [f EXCEPT !.pc = m.pc + 4]
  IN IF op \in 8..11 THEN nx ELSE Put(nx, d, x.w)

Multiply(m, i) ==
  LET p == Mul(m.r[F(i, 3, 0)], m.r[F(i, 11, 8)])
      w == IF F(i, 21, 21) = 1 THEN Add(p, m.r[F(i, 15, 12)]) ELSE p
      f == IF F(i, 20, 20) = 1 THEN [m EXCEPT !.n = IsNeg(w), !.z = (w = Zero)] ELSE m
  IN [f EXCEPT !.pc = m.pc + 4, !.r[F(i, 19, 16)] = w]

Transfer(m, i) ==
  LET off == IF F(i, 25, 25) = 0 THEN <<0, F(i, 11, 0)>> ELSE Shift(m, m.r[F(i, 3, 0)], F(i, 6, 5), F(i, 11, 7), TRUE).w
      rn == F(i, 19, 16)
      base == Reg(m, rn, 8)
      moved == IF F(i, 23, 23) = 1 THEN Add(base, off) ELSE Sub(base, off)
      a == IF F(i, 24, 24) = 1 THEN moved ELSE base
      k == a[2] % 4
      byte == F(i, 22, 22) = 1
      d == F(i, 15, 12)
      nx == [m EXCEPT !.pc = m.pc + 4]
      back == IF F(i, 24, 24) = 0 \/ F(i, 21, 21) = 1 THEN [nx EXCEPT !.r[rn] = moved] ELSE nx
      x == Load(m, a)
  IN IF F(i, 20, 20) = 1
     THEN Put(IF Mapped(m, a, FALSE) THEN back ELSE [back EXCEPT !.bad = "reads outside of the memory"], d, IF byte THEN <<0, Bytes(x)[k + 1]>> ELSE Ror(x, 8 * k))
     ELSE IF byte THEN Store(back, a, OfBytes([Bytes(x) EXCEPT ![k + 1] = m.r[d][2] % 256]))
     ELSE Store(back, a, Reg(m, d, 12))

Multiple(m, i) ==
  LET regs == SelectSeq([k \in 1..16 |-> k - 1], LAMBDA k : F(i, k, k) = 1)
      rn == F(i, 19, 16)
      up == F(i, 23, 23) = 1
      size == <<0, 4 * Len(regs)>>
      low == IF up THEN m.r[rn] ELSE Sub(m.r[rn], size)
      first == IF (F(i, 24, 24) = 1) = up THEN Add(low, <<0, 4>>) ELSE low
      at(k) == Add(first, <<0, 4 * (k - 1)>>)
      nx == [m EXCEPT !.pc = m.pc + 4]
      back == IF F(i, 21, 21) = 1 THEN [nx EXCEPT !.r[rn] = IF up THEN Add(@, size) ELSE low] ELSE nx
      each == [k \in 1..Len(regs) |-> k]
      fine == \A k \in 1..Len(regs) : Mapped(m, at(k), F(i, 20, 20) = 0)
  IN IF F(i, 20, 20) = 1
     THEN FoldLeft(LAMBDA acc, k : Put(acc, regs[k], Load(m, at(k))), IF fine THEN back ELSE [back EXCEPT !.bad = "reads outside of the memory"], each)
     ELSE LET st == FoldLeft(LAMBDA acc, k : Store(acc, at(k), Reg(m, regs[k], 12)), nx, each) IN [st EXCEPT !.r = back.r]

Branch(m, i) ==
  LET o == IF F(i, 23, 23) = 1 THEN F(i, 22, 16) - 128 ELSE F(i, 22, 16)
      target == m.pc + 8 + 4 * (o * H + i[2])
      lk == IF F(i, 24, 24) = 1 THEN [m EXCEPT !.r[14] = W(m.pc + 4)] ELSE m
  IN [lk EXCEPT !.pc = target]

Fetched(m) == m.img[(m.pc \div 4) + 1]
InCode(m) == m.pc >= 0 /\ m.pc \div 4 < Len(m.img)
\* a branch to itself: the end
Ended(m) == InCode(m) /\ Fetched(m) = <<60159, 65534>>

Step(m) ==
  LET i == Fetched(m)
      kind == F(i, 27, 25)
  IN IF ~Holds(m, F(i, 31, 28)) THEN [m EXCEPT !.pc = @ + 4]
     ELSE CASE kind = 0 /\ F(i, 7, 4) = 9 /\ F(i, 24, 22) = 0 -> Multiply(m, i)
            [] kind = 0 /\ F(i, 7, 7) = 1 /\ F(i, 4, 4) = 1 -> [m EXCEPT !.bad = "no such instruction"]
            [] kind = 3 /\ F(i, 4, 4) = 1 -> [m EXCEPT !.bad = "no such instruction"]
            [] kind \in {0, 1} -> IF F(i, 24, 23) = 2 /\ F(i, 20, 20) = 0 THEN [m EXCEPT !.bad = "no such instruction"] ELSE Processing(m, i)
            [] kind \in {2, 3} -> Transfer(m, i)
            [] kind = 4 -> Multiple(m, i)
            [] kind = 5 -> Branch(m, i)
            [] OTHER -> [m EXCEPT !.bad = "no such instruction"]
=============================================================================
