--------------------------------- MODULE Cli ---------------------------------
(* The command lines of the garbler/evaluator command and of the plaintext      *)
(* evaluator command, and what they have to print and return.  A command line   *)
(* is a sequence of [o: option, k: kind of value, v: value]:                    *)
(*   k = "flag"; "num" (v a number); "hex" (v its digits, most significant      *)
(*   first); "file" (v the lines of the file, each a sequence of digits);       *)
(*   "word" (v a string).  A digit 16 is any character that is no digit.        *)
(* A case is [kind, A, B, c, readable]; kind "session" (two processes: command  *)
(* lines A and B), "plain" or "alone" (one process, command line A).            *)
EXTENDS Circuit, Render, TLC, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Cases
VARIABLES id, S
Init == LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : id = i /\ S = all[i]
Next == UNCHANGED <<id, S>>
Spec == Init /\ [][Next]_<<id, S>>

Has(cmd, o) == \E i \in 1..Len(cmd) : cmd[i].o = o
Val(cmd, o) == cmd[CHOOSE i \in 1..Len(cmd) : cmd[i].o = o]
Num(cmd, o, default) == IF Has(cmd, o) THEN Val(cmd, o).v ELSE default

(* The bits of a number given in hexadecimal, lowest first.                    *)
FromDigits(d) == FoldLeft(LAMBDA acc, v : acc \o <<v % 2, v \div 2 % 2, v \div 4 % 2, v \div 8>>, <<>>, Reverse(d))
(* In a file the last line is the most significant one.                        *)
Joined(lines) == FoldLeft(LAMBDA acc, l : l \o acc, <<>>, lines)
Bits(cmd, o) == IF ~Has(cmd, o) THEN <<0>>
                ELSE IF Val(cmd, o).k = "file" THEN FromDigits(Joined(Val(cmd, o).v)) ELSE FromDigits(Val(cmd, o).v)

Modes == ("0" :> "consecutive") @@ ("consecutive" :> "consecutive") @@ ("1" :> "separated") @@ ("separated_clock" :> "separated")
         @@ ("2" :> "last") @@ ("last_clock" :> "last")
ModeWord(cmd) == IF Has(cmd, "output_mode") THEN Val(cmd, "output_mode").v ELSE "0"
GoodMode(cmd) == ModeWord(cmd) \in DOMAIN Modes
Mode(cmd)     == Modes[ModeWord(cmd)]

Cycles(cmd) == Num(cmd, "clock_cycles", 1)
Period(cmd) == Num(cmd, "terminate_period", 0)
Role(cmd)   == IF Has(cmd, "alice") THEN "A" ELSE IF Has(cmd, "bob") THEN "B" ELSE "none"

(* Refused before anything is opened or read.                                  *)
Usage(kind, cmd) == \/ ~GoodMode(cmd)
                    \/ kind = "plain" /\ ~Has(cmd, "scd_file")
                    \/ kind # "plain" /\ Role(cmd) = "none"
(* Accepted, but not executable.                                               *)
Digits(e) == IF e.k = "file" THEN Joined(e.v) ELSE e.v
NoNumber(cmd) == \E i \in 1..Len(cmd) : cmd[i].k \in {"hex", "file"} /\ \E j \in 1..Len(Digits(cmd[i])) : Digits(cmd[i])[j] \notin 0..15
Impossible(cmd) == ~S.readable \/ Cycles(cmd) = 0 \/ (Period(cmd) # 0 /\ S.c.term = 0) \/ NoNumber(cmd)

Refused == [ok |-> FALSE, out |-> <<>>]
Printed(run, mode) == [ok |-> TRUE, out |-> Rendered(run, mode)]

Inputs == IF S.kind = "plain"
          THEN [pinit |-> Bits(S.A, "p_init"), ginit |-> Bits(S.A, "g_init"), einit |-> Bits(S.A, "e_init"),
                pin |-> Bits(S.A, "p_input"), gin |-> Bits(S.A, "g_input"), ein |-> Bits(S.A, "e_input")]
          ELSE [pinit |-> Bits(S.A, "p_init"), ginit |-> Bits(S.A, "init"), einit |-> Bits(S.B, "init"),
                pin |-> Bits(S.A, "p_input"), gin |-> Bits(S.A, "input"), ein |-> Bits(S.B, "input")]

Expected ==
  IF S.kind = "session"
  THEN IF Usage("session", S.A) \/ Usage("session", S.B) \/ Impossible(S.A) \/ Impossible(S.B) THEN <<Refused, Refused>>
       ELSE LET run == Run(S.c, Inputs, Cycles(S.A), Period(S.A))
                m == Bits(S.A, "output_mask")
            IN <<Printed(Share(run, m, "A"), Mode(S.A)), Printed(Share(run, m, "B"), Mode(S.B))>>
  ELSE IF S.kind = "plain" /\ ~Usage("plain", S.A) /\ ~Impossible(S.A)
       THEN <<Printed(Run(S.c, Inputs, Cycles(S.A), Period(S.A)), Mode(S.A))>>
       ELSE <<Refused>>

(* A case of the family says the same on both sides where it has to.           *)
Agreeing == S.kind = "session" =>
  /\ Cycles(S.A) = Cycles(S.B) /\ Period(S.A) = Period(S.B) /\ Has(S.A, "disable_OT") = Has(S.B, "disable_OT")
  /\ Has(S.A, "low_mem_foot") = Has(S.B, "low_mem_foot") /\ Bits(S.A, "output_mask") = Bits(S.B, "output_mask")
  /\ Bits(S.A, "p_init") = Bits(S.B, "p_init") /\ Bits(S.A, "p_input") = Bits(S.B, "p_input")
Single(cmd) == \A i, j \in 1..Len(cmd) : i # j => cmd[i].o # cmd[j].o
OneOfEach == Single(S.A) /\ Single(S.B)
(* Both parties' outputs together are the plaintext command's output.          *)
TogetherPlain ==
  (S.kind = "session" /\ Expected[1].ok /\ Mode(S.A) = "consecutive") =>
    LET run == Run(S.c, Inputs, Cycles(S.A), Period(S.A)) m == Bits(S.A, "output_mask")
    IN \A k \in 1..Len(run) : \A i \in 1..Len(run[k]) : Share(run, m, "A")[k][i] + Share(run, m, "B")[k][i] = run[k][i]
Emit == PrintT("@@" \o ToJson([id |-> id, e |-> Expected]))
=============================================================================
