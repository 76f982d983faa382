------------------------------ MODULE MCBroken ------------------------------
(* Netlists that mean nothing, given to the real translator, and what becomes   *)
(* of them.  A case is [n: netlist, syntax: what the text gets wrong beyond the *)
(* netlist ("" for nothing), ok: did the translator report success, wrote: is   *)
(* there a circuit description afterwards].                                     *)
(* The specification of refusal does not say how a description is read; it says *)
(* which netlists have no meaning: a cell lacks a pin it needs, or something    *)
(* that is read - by a cell, an output port, the terminate port - is driven by  *)
(* nothing at all, not even through a chain of assigns written either way.      *)
EXTENDS Netlist, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Cases
VARIABLES id, K, known
vars == <<id, K, known>>
N == K.n

MissingPin(n) ==
  \E i \in 1..Len(n.cells) : LET c == n.cells[i] IN
     \/ \E k \in 1..Len(c.in) : c.in[k] = ""
     \/ \A k \in 1..Len(c.out) : c.out[k] = ""

(* Everything that may count as driven grows along the assigns, in both        *)
(* directions, one net at a time.                                              *)
Driven0(n) == (DOMAIN InitNets(n) \cup DOMAIN InputNets(n) \cup DOMAIN Constants01
               \cup UNION {Drives(n, s) : s \in 1..Len(n.cells)}) \ {""}
Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : id = i /\ K = all[i]
        /\ known = Driven0(K.n)
Reach == {k \in 1..Len(N.assigns) : Cardinality({N.assigns[k][1], N.assigns[k][2]} \cap known) = 1}
Next == IF Reach = {} THEN UNCHANGED vars
        ELSE known' = known \cup UNION {{N.assigns[k][1], N.assigns[k][2]} : k \in Reach} /\ UNCHANGED <<id, K>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Closed == Reach = {}

ReadByCells(n) == UNION {Reads(n, s) : s \in 1..Len(n.cells)}
Undriven ==
  \/ ~(ReadByCells(N) \subseteq known)
  \/ \E i \in 0..(N.o - 1) : OutNames(N, i) \cap known = {}
  \/ N.term /\ "terminate" \notin known

(* A text outside the language means nothing in particular: it may be refused  *)
(* or taken for something, but the translator answers.                         *)
Anything == K.syntax = "any"
Broken == ~Anything /\ (MissingPin(N) \/ Undriven \/ K.syntax # "")
(* A netlist with a meaning: a legal one without a loop.                       *)
Meaningful == ~Anything /\ ~Broken /\ Legal(N) /\ ~Loop(N) /\ ~Inexpressible(N)
(* A netlist that is legal in the sense of Netlist.tla is not broken here.     *)
Consistent == Closed /\ K.syntax = "" /\ ~MissingPin(N) /\ Legal(N) => ~Undriven
Say(what) == PrintT("@@" \o ToJson([id |-> id, what |-> what, why |-> IF K.syntax # "" THEN K.syntax ELSE IF MissingPin(N) THEN "missing pin" ELSE IF Undriven THEN "undriven" ELSE "none"]))
Judged == Closed =>
  /\ (Broken /\ K.ok) => Say("accepted")
  /\ ((Broken \/ ~K.ok) /\ K.wrote) => Say("written")
  /\ (K.ok /\ ~K.wrote) => Say("unwritten")
  /\ (Meaningful /\ ~K.ok) => Say("refused")
  /\ Say(IF Broken THEN "broken" ELSE IF Meaningful THEN "meaningful" ELSE "unspecified")
Settles == <>Closed
=============================================================================
