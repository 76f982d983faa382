------------------------------ MODULE MCReader ------------------------------
(* The reading machine on texts.  A case is [toks, whole: does the harness know *)
(* the netlist, want: that netlist].  What every text means is printed, for the *)
(* real translator to be judged by.                                             *)
EXTENDS Reader, Json, IOUtils

FromFile == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Cases
VARIABLES id, K, pos, st
vars == <<id, K, pos, st>>
view == <<id, pos>>

Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : id = i /\ K = all[i]
        /\ pos = 0 /\ st = Start
Over == pos = Len(K.toks) \/ st.mode \in {"done", "fail"}
Next == IF Over THEN UNCHANGED vars
        ELSE pos' = pos + 1 /\ st' = Read1(st, K.toks[pos + 1]) /\ UNCHANGED <<id, K>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Same(a, b) == /\ \A f \in {"pi", "gi", "ei", "px", "gx", "ex", "o", "term"} : a[f] = b[f]
              /\ Bag(a.cells) = Bag(b.cells) /\ Bag(a.assigns) = Bag(b.assigns)
Verdict == IF st.mode = "fail" THEN "any" ELSE IF st.mode # "done" THEN "end"
           ELSE IF st.flaws # {} THEN CHOOSE f \in st.flaws : TRUE ELSE ""

(* The text of a netlist that Netlist.tla gives a meaning to.                   *)
Means == /\ Verdict = ""
         /\ LET n == NetlistOf(st)
            IN /\ n.o > 0 /\ \A i \in DOMAIN n.cells : (\A k \in DOMAIN n.cells[i].in : n.cells[i].in[k] # "") /\ (\E k \in DOMAIN n.cells[i].out : n.cells[i].out[k] # "")
               /\ Legal(n) /\ ~Loop(n) /\ ~Inexpressible(n)

(* Every cell has the pins of its type, every net a name.                       *)
CellsComplete == /\ \A i \in DOMAIN st.cells : LET c == st.cells[i] IN /\ c.t \in CellTypes /\ Len(c.in) = Len(Ins(c.t)) /\ Len(c.out) = Len(Outs(c.t))
              /\ \A i \in DOMAIN st.assigns : st.assigns[i][1] # "" /\ st.assigns[i][2] # ""
              /\ \A p \in DOMAIN st.widths : st.widths[p] > 0
(* The texts the harness writes for its netlists mean these netlists.           *)
AsWritten == (Over /\ K.whole) => (Verdict = "" /\ Same(NetlistOf(st), K.want))
(* Reading undoes writing.                                                      *)
RoundTrip == (Over /\ st.mode = "done") => LET r == Read(Text(NetlistOf(st))) IN r.mode = "done" /\ r.flaws = {} /\ NetlistOf(r) = NetlistOf(st)
Told == Over => PrintT("@@" \o ToJson([id |-> id, syntax |-> Verdict, mode |-> st.mode, at |-> pos, legal |-> Means, n |-> NetlistOf(st)]))
Ends == <>Over
(* What has been read stays read.                                               *)
Grows == [][/\ Len(st'.cells) >= Len(st.cells) /\ Len(st'.assigns) >= Len(st.assigns) /\ DOMAIN st.widths \subseteq DOMAIN st'.widths
            /\ st.flaws \subseteq st'.flaws /\ \A i \in DOMAIN st.cells : st'.cells[i] = st.cells[i]]_vars
=============================================================================
