-------------------------------- MODULE MCElf --------------------------------
(* From a linked program to the words of its memory image: the loader takes the *)
(* sections one after another, in the order of their headers.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Sess == ndJsonDeserialize(IOEnv.SESSIONS)     \* [magic, machine, secs: <<[type, alloc, addr, size, bytes]>>]

(* What a section puts into memory: program contents its bytes, .bss zeros; and *)
(* only what the program loads.                                                *)
Loaded(s) == s.alloc /\ s.type \in {"progbits", "nobits"}
Byte(s, a) == IF s.type = "progbits" THEN s.bytes[a - s.addr + 1] ELSE 0
Span(s) == s.addr .. (s.addr + s.size - 1)
Accepted(x) == x.magic /\ x.machine = 40

VARIABLES sid, k, mem, top       \* sections taken, the memory so far, its end
vars == <<sid, k, mem, top>>
Secs == Sess[sid].secs

Init == sid \in 1..Len(Sess) /\ k = 0 /\ mem = <<>> /\ top = 0
Step == /\ Accepted(Sess[sid]) /\ k < Len(Secs)
        /\ k' = k + 1 /\ sid' = sid
        /\ LET s == Secs[k + 1] IN
           IF Loaded(s) /\ s.size > 0
           THEN /\ mem' = [a \in DOMAIN mem \cup Span(s) |-> IF a \in Span(s) THEN Byte(s, a) ELSE mem[a]]
                /\ top' = Max({top, s.addr + s.size})
           ELSE UNCHANGED <<mem, top>>
Spec == Init /\ [][Step]_vars

Done == ~Accepted(Sess[sid]) \/ k = Len(Secs)
At(a) == IF a \in DOMAIN mem THEN mem[a] ELSE 0
Image == [w \in 1..((top + 3) \div 4) |-> <<At(4 * w - 1), At(4 * w - 2), At(4 * w - 3), At(4 * w - 4)>>]   \* highest byte first

\* sections of a linked program do not share addresses
Apart == \A i, j \in 1..Len(Secs) : i < j /\ Loaded(Secs[i]) /\ Loaded(Secs[j]) => Span(Secs[i]) \cap Span(Secs[j]) = {}
\* then every loaded byte is where it belongs, and the order does not matter
Placed == Done /\ Accepted(Sess[sid]) => \A i \in 1..Len(Secs) : Loaded(Secs[i]) => \A a \in Span(Secs[i]) : At(a) = Byte(Secs[i], a) /\ a < top
\* nothing else is there
NothingElse == Done => \A a \in DOMAIN mem : \E i \in 1..Len(Secs) : Loaded(Secs[i]) /\ a \in Span(Secs[i])
\* a section's bytes are at their address from when it is taken on
Stays == [][\A a \in DOMAIN mem : a \in DOMAIN mem' /\ mem'[a] = mem[a]]_vars

Emit == Done => PrintT("@@" \o ToJson([sid |-> sid, ok |-> Accepted(Sess[sid]), image |-> Image]))
=============================================================================
