------------------------------- MODULE Reader -------------------------------
(* How a netlist is read from its text: the language of structural Verilog     *)
(* that synthesis writes for TinyGarble, as a machine that takes one token at   *)
(* a time.  What a text means is the netlist the machine ends up with; texts    *)
(* outside the language get stuck in "fail" and mean nothing in particular.     *)
(*                                                                              *)
(* A token is [k, s, n]: k one of "word" (names, bit-selected names, constants, *)
(* keywords), "pin" (s: the name without the dot), "range" (n: its upper        *)
(* bound), "bit" (s: a bit select that stands apart from its name), or the      *)
(* punctuation itself.  Comments and attributes are not tokens.                 *)
EXTENDS Netlist

Keywords == {"module", "endmodule", "input", "output", "wire", "assign"}
InPorts  == {"p_init", "g_init", "e_init", "p_input", "g_input", "e_input"}
Clocks   == {"clk", "rst"}

(* How types are written, and the pins of the cells in the order of Netlist.   *)
TypeOf == [w \in (CellTypes \ {"NOT"}) \cup {"IV"} |-> IF w = "IV" THEN "NOT" ELSE w]
Ins(t)  == CASE t = "DFF" -> <<"D", "I">> [] t = "MUX" -> <<"IN0", "IN1", "SEL">> [] t = "HADDER" -> <<"IN0", "IN1">>
             [] t = "FADDER" -> <<"IN0", "IN1", "CIN">> [] t = "NOT" -> <<"A">> [] OTHER -> <<"A", "B">>
Outs(t) == CASE t = "DFF" -> <<"Q">> [] t = "MUX" -> <<"F">> [] t \in {"HADDER", "FADDER"} -> <<"SUM", "COUT">> [] OTHER -> <<"Z">>
PinsOf(t) == {Ins(t)[k] : k \in DOMAIN Ins(t)} \cup {Outs(t)[k] : k \in DOMAIN Outs(t)}
AllPins   == UNION {PinsOf(t) : t \in CellTypes} \cup {"CLK", "RST"}

(* Names of types are not used for anything else.                               *)
Reserved == DOMAIN TypeOf

NoNet  == [p \in {} |-> ""]
Start == [mode |-> "start", widths |-> [p \in {} |-> 0], kind |-> "", width |-> -1, type |-> "", pin |-> "", pins |-> NoNet,
          left |-> "", right |-> "", cells |-> <<>>, assigns |-> <<>>, flaws |-> {}]

Fail(st)     == [st EXCEPT !.mode = "fail"]
To(st, m)    == [st EXCEPT !.mode = m]
Name(t)      == t.k = "word" /\ t.s \notin Keywords \cup Reserved

(* A port is declared: its width, or a flaw.                                    *)
Declare(st, name) ==
  IF name \in DOMAIN st.widths THEN Fail(st)
  ELSE LET w == IF st.width < 0 THEN 1 ELSE st.width + 1
           fits == IF st.kind = "input" THEN name \in InPorts \cup Clocks ELSE name \in {"o", "terminate"}
           flaw == IF ~fits THEN {"port name"} ELSE IF name = "terminate" /\ st.width >= 0 THEN {"wide terminate"} ELSE {}
       IN IF name \in Clocks /\ st.width >= 0 THEN Fail(st)
          ELSE [st EXCEPT !.widths = (name :> w) @@ @, !.flaws = @ \cup flaw, !.mode = "declared"]

NetOf(pins, p) == IF p \in DOMAIN pins THEN pins[p] ELSE ""
EndCell(st) ==
  LET known == st.type \in DOMAIN TypeOf
      t     == TypeOf[st.type]
      cell  == [t |-> t, in |-> [k \in DOMAIN Ins(t) |-> NetOf(st.pins, Ins(t)[k])], out |-> [k \in DOMAIN Outs(t) |-> NetOf(st.pins, Outs(t)[k])]]
      others == DOMAIN st.pins \ (PinsOf(t) \cup IF t = "DFF" THEN {"CLK", "RST"} ELSE {})
  IN IF ~known THEN [st EXCEPT !.mode = "item", !.pins = NoNet]       \* a cell nobody knows drives nothing
     ELSE IF others \cap AllPins # {} THEN Fail(st)
     ELSE [st EXCEPT !.mode = "item", !.pins = NoNet, !.cells = Append(@, cell), !.flaws = @ \cup (IF others # {} THEN {"pin name"} ELSE {})]

Connect(st) == [st EXCEPT !.pins = (st.pin :> st.left) @@ @, !.mode = "pinned"]

Read1(st, t) ==
  CASE st.mode \in {"fail", "done"} -> st
    [] st.mode = "start"  -> IF t.s = "module" THEN To(st, "name") ELSE Fail(st)
    [] st.mode = "name"   -> IF Name(t) THEN To(st, "ports") ELSE Fail(st)
    [] st.mode = "ports"  -> IF t.k = "(" THEN To(st, "port") ELSE Fail(st)
    [] st.mode = "port"   -> IF Name(t) THEN To(st, "ported") ELSE Fail(st)
    [] st.mode = "ported" -> IF t.k = "," THEN To(st, "port") ELSE IF t.k = ")" THEN To(st, "header") ELSE Fail(st)
    [] st.mode = "header" -> IF t.k = ";" THEN To(st, "item") ELSE Fail(st)
    [] st.mode = "item" ->
         IF t.k # "word" THEN Fail(st)
         ELSE IF t.s = "endmodule" THEN To(st, "done")
         ELSE IF t.s \in {"input", "output", "wire"} THEN [st EXCEPT !.mode = "range?", !.kind = t.s, !.width = -1]
         ELSE IF t.s = "assign" THEN To(st, "left")
         ELSE IF t.s \in Keywords THEN Fail(st)
         ELSE [st EXCEPT !.mode = "instance", !.type = t.s]
    \* declarations
    [] st.mode = "range?" -> IF t.k = "range" THEN [st EXCEPT !.mode = "names", !.width = t.n]
                             ELSE IF ~Name(t) THEN Fail(st) ELSE IF st.kind = "wire" THEN To(st, "declared") ELSE Declare(st, t.s)
    [] st.mode = "names"  -> IF ~Name(t) THEN Fail(st) ELSE IF st.kind = "wire" THEN To(st, "declared") ELSE Declare(st, t.s)
    [] st.mode = "declared" -> IF t.k = "," THEN To(st, "names") ELSE IF t.k = ";" THEN To(st, "item") ELSE Fail(st)
    \* assigns
    [] st.mode = "left"   -> IF Name(t) THEN [st EXCEPT !.mode = "=", !.left = t.s] ELSE Fail(st)
    [] st.mode = "="      -> IF t.k = "=" THEN To(st, "right") ELSE Fail(st)
    [] st.mode = "right"  -> IF Name(t) THEN [st EXCEPT !.mode = "assigned", !.right = t.s] ELSE Fail(st)
    [] st.mode = "assigned" -> IF t.k = ";" THEN [st EXCEPT !.mode = "item", !.assigns = Append(@, <<st.left, st.right>>)] ELSE Fail(st)
    \* cells
    [] st.mode = "instance" -> IF Name(t) THEN To(st, "(") ELSE Fail(st)
    [] st.mode = "("      -> IF t.k = "(" THEN To(st, "pin") ELSE Fail(st)
    [] st.mode = "pin"    -> IF t.k = "pin" /\ t.s \notin DOMAIN st.pins THEN [st EXCEPT !.mode = "pin(", !.pin = t.s, !.left = ""] ELSE Fail(st)
    [] st.mode = "pin("   -> IF t.k = "(" THEN To(st, "net?") ELSE Fail(st)
    [] st.mode = "net?"   -> IF t.k = ")" THEN Connect(st) ELSE IF Name(t) THEN [st EXCEPT !.mode = "net)", !.left = t.s] ELSE Fail(st)
    [] st.mode = "net)"   -> IF t.k = ")" THEN Connect(st) ELSE IF t.k = "bit" THEN [st EXCEPT !.mode = "bit)", !.left = @ \o t.s] ELSE Fail(st)
    [] st.mode = "bit)"   -> IF t.k = ")" THEN Connect(st) ELSE Fail(st)
    [] st.mode = "pinned" -> IF t.k = "," THEN To(st, "pin") ELSE IF t.k = ")" THEN To(st, "cell;") ELSE Fail(st)
    [] st.mode = "cell;"  -> IF t.k = ";" THEN EndCell(st) ELSE Fail(st)

Width(st, p) == IF p \in DOMAIN st.widths THEN st.widths[p] ELSE 0
NetlistOf(st) ==
  [pi |-> Width(st, "p_init"), gi |-> Width(st, "g_init"), ei |-> Width(st, "e_init"),
   px |-> Width(st, "p_input"), gx |-> Width(st, "g_input"), ex |-> Width(st, "e_input"),
   o |-> Width(st, "o"), term |-> "terminate" \in DOMAIN st.widths, form |-> "verilog", cells |-> st.cells, assigns |-> st.assigns]

----------------------------------------------------------------------------
(* One way to write a netlist down; Names for the instances do not matter.      *)
W(s)      == [k |-> "word", s |-> s, n |-> 0]
P(c)      == [k |-> c, s |-> c, n |-> 0]
Pin(p, x) == <<[k |-> "pin", s |-> p, n |-> 0], P("(")>> \o (IF x = "" THEN <<>> ELSE <<W(x)>>) \o <<P(")")>>
RECURSIVE Sep(_)
Sep(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<P(",")>> \o Sep(Tail(ss))
Decl(kind, p, w) == IF w = 0 THEN <<>> ELSE <<W(kind)>> \o (IF w = 1 THEN <<>> ELSE <<[k |-> "range", s |-> "", n |-> w - 1]>>) \o <<W(p), P(";")>>
CellText(c, i) ==
  LET type == IF c.t = "NOT" THEN "IV" ELSE c.t
      pins == [k \in DOMAIN c.in |-> Pin(Ins(c.t)[k], c.in[k])] \o [k \in DOMAIN c.out |-> Pin(Outs(c.t)[k], c.out[k])]
  IN <<W(type), W("U" \o ToString(i)), P("(")>> \o Sep(pins) \o <<P(")"), P(";")>>
Text(n) ==
  <<W("module"), W("top"), P("("), W("o"), P(")"), P(";")>>
  \o Decl("input", "p_init", n.pi) \o Decl("input", "g_init", n.gi) \o Decl("input", "e_init", n.ei)
  \o Decl("input", "p_input", n.px) \o Decl("input", "g_input", n.gx) \o Decl("input", "e_input", n.ex)
  \o Decl("output", "o", n.o) \o Decl("output", "terminate", IF n.term THEN 1 ELSE 0)
  \o FlattenSeq([i \in DOMAIN n.cells |-> CellText(n.cells[i], i)])
  \o FlattenSeq([i \in DOMAIN n.assigns |-> <<W("assign"), W(n.assigns[i][1]), P("="), W(n.assigns[i][2]), P(";")>>])
  \o <<W("endmodule")>>
Read(toks) == FoldLeft(Read1, Start, toks)
=============================================================================
