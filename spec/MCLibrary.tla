------------------------------ MODULE MCLibrary ------------------------------
(* Runs of the designs: the elaborated, translated and evaluated design is held *)
(* against the specification cycle by cycle.                                    *)
EXTENDS Library, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.SESSIONS)   \* [d, p, ini, x: per cycle, y: observed outputs per cycle]

VARIABLES sid, k, st, last        \* cycles done, the state, the last cycle's result
vars == <<sid, k, st, last>>
Run == Runs[sid]
Init == sid \in 1..Len(Runs) /\ k = 0 /\ st = Start(Run.d, Run.p, Run.ini) /\ last = <<>>
Next == /\ k < Len(Run.x) /\ k' = k + 1 /\ sid' = sid
        /\ last' = TLCEval(Cycle(Run.d, Run.p, st, Run.x[k + 1]))
        /\ st' = last'.st
Spec == Init /\ [][Next]_vars

Judged == k > 0 => LET r == [out |-> last.out, st |-> st] IN
            Accepts(Run.d, Run.p, Run.x[k], r, Run.y[k]) \/ PrintT("@@" \o ToJson([sid |-> sid, k |-> k, out |-> last.out]))

\* outputs have the width of the ports
Width == k > 0 /\ Run.d \notin Searches => Len(last.out) = Len(Run.y[k])
All(port) == FoldLeft(LAMBDA a, i : a \o Run.x[i][port], <<>>, [i \in 1..k |-> i])
\* serial designs compute the whole word's result, lowest part first
Serial ==
  k > 0 => CASE Run.d = "sum" -> LET s == Sum(All("g_input"), All("e_input"), 0) IN st = s.c /\ last.out = SubSeq(s.s, Len(s.s) - Len(last.out) + 1, Len(s.s))
             [] Run.d = "compare" -> st = AtLeast(All("g_input"), All("e_input"))
             [] Run.d = "hamming" -> st = Hamming(All("g_input"), All("e_input"))
             [] OTHER -> TRUE
\* the arithmetic designs among each other
Arith ==
  k > 0 => CASE Run.d = "SUB" -> LET b == Wide(Run.x[k].B, Run.p.N) IN
                  Sum(Tail(last.out), b, 0).s = Run.x[k].A /\ last.out[1] = AtLeast(Run.x[k].A, b)
             [] Run.d = "COMP" -> Len(Run.x[k].A) > 20 \/ (last.out[1] = 1 <=> Num(Run.x[k].A) >= Num(Run.x[k].B))
             [] Run.d = "ADD" -> Run.p.N > 20 \/ Num(Tail(last.out)) + Two[Run.p.N] * last.out[1] = Num(Run.x[k].A) + Num(Run.x[k].B) + Run.x[k].CI[1]
             [] Run.d = "DIV" -> LET q == Num(last.out)  b == Num(Run.x[k].B) IN q * b <= Num(Run.x[k].A) /\ Num(Run.x[k].A) < (q + 1) * b
             [] Run.d = "SHIFT_LEFT" -> Run.p.N > 14 \/ Num(Run.x[k].shift_amount) > 14 \/ Num(last.out) = (Num(Run.x[k].a) * Two[Num(Run.x[k].shift_amount)]) % Two[Run.p.N]
             [] Run.d = "SHIFT_RIGHT" -> Num(Run.x[k].shift_amount) > 14 \/ Run.p.N > 20 \/ Num(last.out) = Num(Run.x[k].a) \div Two[Num(Run.x[k].shift_amount)]
             [] OTHER -> TRUE
\* a whole product modulo n, once every bit was taken
Modular == Run.d = "modmult" /\ k > Run.p.CC /\ (\A i \in 1..k : i <= k - Run.p.CC \/ Run.x[i].start[1] = 0) /\ Run.x[k - Run.p.CC].start[1] = 1
           /\ (\A i \in (k - Run.p.CC)..k : Run.x[i].y = Run.x[k].y /\ Run.x[i].n = Run.x[k].n)
           => last.out = Bits((Num(Run.x[k - Run.p.CC].x) * Num(Run.x[k].y)) % Num(Run.x[k].n), Run.p.N)
=============================================================================
