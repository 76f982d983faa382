------------------------------- MODULE MCReport -------------------------------
(* What the commands report about their own runs (in a build with logging).    *)
(*                                                                             *)
(* A report is a list of messages [who, lvl, m, v]: the party, "INFO" or        *)
(* "ERROR", the kind of message and its numbers.  Of a successful session:      *)
(*   skipped <<s, t>>  s of the t non-XOR gates of the executed cycles needed   *)
(*                     no table           (garbler)                            *)
(*   garbled <<g>>     g did              (garbler)                            *)
(*   tables  <<c, k>>  cycle c was sent k > 0 tables (garbler, cycle by cycle)  *)
(*   stopped <<n, m>>  the circuit terminated after n of the m cycles          *)
(*   short   <<m>>     it is one that terminates, but did not in m cycles       *)
(*   noot, low         the session runs without OT, in low-memory mode         *)
(*   output            the output (its text is in outA and outB)               *)
(* A party that fails reports at least one error, a successful one only short   *)
(* (and, where the circuit has some, may name gates that nothing uses).         *)
(* Where the messages go is Sink: one file for each level beside the program,  *)
(* which both parties may share, unless an option names the standard streams.  *)
EXTENDS Session, IOUtils

FromFile == ndJsonDeserialize(IOEnv.SESSIONS)
WellFormedSession == WellFormed(C)

Ended == Done /\ S.ok /\ A.rc = 0 /\ B.rc = 0

NonXor(c) == Cardinality({g \in 1..NGate(c) : c.gates[g].t \in TableTypes})
TableMsgs == SelectSeq(chAB.log, LAMBDA m : m.k = "tables")
Garbled == FoldLeft(LAMBDA acc, m : acc + Len(m.tabs), 0, TableMsgs)
(* The clear-text run says whether the circuit terminated.                     *)
Terminated == FoldLeft(LAMBDA st, cyc : RunStep(C, S.x, S.period, st, cyc),
                       [dff |-> FirstDff(C, S.x), run |-> <<>>, stop |-> FALSE], [k \in 1..S.cc |-> k - 1]).stop

(* Where messages of a level go, by the logging options.                       *)
Sink(opts, lvl) == IF "log2std" \in opts THEN (IF lvl = "INFO" THEN "stdout" ELSE "stderr")
                   ELSE IF "error2std" \in opts /\ lvl = "ERROR" THEN "stderr" ELSE "file"
SinkTable == [o \in {"none", "error2std", "log2std", "both"} |->
   LET opts == CASE o = "none" -> {} [] o = "both" -> {"error2std", "log2std"} [] OTHER -> {o}
   IN [info |-> Sink(opts, "INFO"), error |-> Sink(opts, "ERROR")]]
\* what is on standard output besides the results
QuietStdout == \A o \in DOMAIN SinkTable : SinkTable[o].error # "stdout" /\ (SinkTable[o].info = "stdout" <=> o \in {"log2std", "both"})

Info(who, m, v) == [who |-> who, lvl |-> "INFO", m |-> m, v |-> v]
Error(who, m, v) == [who |-> who, lvl |-> "ERROR", m |-> m, v |-> v]
If(b, msg) == IF b THEN <<msg>> ELSE <<>>
Ending(who, n) == IF S.period = 0 THEN <<>>
                  ELSE IF Terminated THEN << Info(who, "stopped", <<n, S.cc>>) >>
                  ELSE << Error(who, "short", <<S.cc>>) >>
Cycles == FoldLeft(LAMBDA acc, m : IF m.tabs = <<>> THEN acc ELSE Append(acc, Info("A", "tables", <<m.cyc, Len(m.tabs)>>)), <<>>, TableMsgs)
ReportA == If(S.noot, Info("A", "noot", <<>>)) \o If(S.low, Info("A", "low", <<>>))
           \o Cycles \o Ending("A", A.n)
           \o << Info("A", "skipped", <<NonXor(C) * A.n - Garbled, NonXor(C) * A.n>>), Info("A", "garbled", <<Garbled>>), Info("A", "output", <<>>) >>
ReportB == If(S.noot, Info("B", "noot", <<>>)) \o If(S.low, Info("B", "low", <<>>))
           \o Ending("B", B.n) \o << Info("B", "output", <<>>) >>
ReportP == Ending("P", Len(Truth))     \* the plaintext evaluator's

Of(rep, m) == SelectSeq(rep, LAMBDA x : x.m = m)
(* Both parties and the plaintext evaluator tell the same about the end, and   *)
(* the numbers add up: the cycles' tables to all of them, none more than the   *)
(* gates there are, and only short cuts a session off at its cycle count.      *)
Told(rep, m) == [i \in 1..Len(Of(rep, m)) |-> Of(rep, m)[i].v]
Agreeing == Ended =>
  /\ \A m \in {"stopped", "short", "noot", "low"} : Told(ReportA, m) = Told(ReportB, m)
  /\ \A m \in {"stopped", "short"} : Told(ReportA, m) = Told(ReportP, m)
AddsUp == Ended =>
  /\ FoldLeft(LAMBDA acc, v : acc + v[2], 0, Told(ReportA, "tables")) = Told(ReportA, "garbled")[1][1]
  /\ Told(ReportA, "skipped")[1][1] >= 0
  /\ Told(ReportA, "skipped")[1][1] + Garbled = Told(ReportA, "skipped")[1][2]
  /\ \A v \in {Told(ReportA, "tables")[i] : i \in 1..Len(Told(ReportA, "tables"))} : v[2] <= NonXor(C) /\ v[1] < A.n
EndTold == Ended =>
  /\ A.n < S.cc => Told(ReportA, "stopped") # <<>>
  /\ S.period > 0 => Len(Told(ReportA, "stopped")) + Len(Told(ReportA, "short")) = 1
  /\ S.period = 0 => Told(ReportA, "stopped") = <<>> /\ Told(ReportA, "short") = <<>>

Emit == Done => PrintT("@@" \o ToJson(
   [sid |-> sid, ok |-> Ended, a |-> IF Ended THEN ReportA ELSE <<>>, b |-> IF Ended THEN ReportB ELSE <<>>, p |-> IF S.ok THEN ReportP ELSE <<>>,
    outA |-> IF A.rc = 0 THEN Rendered(A.out, S.mode) ELSE <<>>, outB |-> IF B.rc = 0 THEN Rendered(B.out, S.mode) ELSE <<>>,
    unused |-> \E g \in 1..NGate(C) : S.fan0[g] = 0, sinks |-> SinkTable, plain |-> IF S.ok THEN Rendered(Truth, S.mode) ELSE <<>>]))
=============================================================================
