-------------------------------- MODULE MCArm --------------------------------
(* Runs program images (the committed a23/.../p.txt and others) on the specified processor *)
(* and compares what they leave in the output with what the program is for.     *)
EXTENDS Arm, Json, IOUtils

Sess == ndJsonDeserialize(IOEnv.SESSIONS)     \* [name, image, g, e, want, steps]: the programs' runs; want: from MCPrograms
Images == ndJsonDeserialize(IOEnv.IMAGES)     \* [name, words]
Image(name) == LET i == CHOOSE i \in 1..Len(Images) : Images[i].name = name IN Images[i].words

VARIABLES sid, m, n
vars == <<sid, m, n>>

Init == sid \in 1..Len(Sess) /\ m = Machine(Image(Sess[sid].image), Sess[sid].g, Sess[sid].e) /\ n = 0
Going(x) == x.bad = "" /\ InCode(x) /\ ~Ended(x)
Running == Going(m) /\ n < Sess[sid].steps
Batch == 64                                    \* instructions of a transition
Next == /\ Running
        /\ LET x == FoldLeft(LAMBDA acc, k : IF Going(acc[1]) THEN <<Step(acc[1]), acc[2] + 1>> ELSE acc, <<m, n>>, [k \in 1..Batch |-> k])
           IN m' = x[1] /\ n' = x[2]
        /\ sid' = sid
Spec == Init /\ [][Next]_vars

Near(a, b) == a = b \/ (IsNeg(a) = IsNeg(b) /\ Signed(a) - Signed(b) \in -512..512) \/ (IsNeg(a) # IsNeg(b) /\ Signed(a) \in -512..512 /\ Signed(b) \in -512..512)
Same(a, b) == IF Sess[sid].name = "cordic" THEN Near(a, b) ELSE a = b
Right == \A i \in 1..64 : Same(m.out[i], Sess[sid].want[i])
\* the program text itself is not overwritten: what ran is what was loaded
Intact == InCode(m) => Fetched(m) = Image(Sess[sid].image)[(m.pc \div 4) + 1]
Verdict == CASE m.bad # "" -> m.bad
             [] ~InCode(m) -> "runs out of the program"
             [] n >= Sess[sid].steps /\ ~Ended(m) -> "does not end"
             [] ~Intact -> "overwrites itself"
             [] ~Right -> "leaves another output"
             [] OTHER -> "ok"
Emit == ~Running => PrintT("@@" \o ToJson([sid |-> sid, verdict |-> Verdict, n |-> n, out |-> m.out]))
=============================================================================
