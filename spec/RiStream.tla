------------------------------ MODULE RiStream ------------------------------
(* What a stream of requests with conditionals, inline archives, objects and      *)
(* archive files expands to.  The environment issues a properly scoped stream,     *)
(* one request per step; `st' is the interpreter.  Expected result: st.outp.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems,     \* length of the stream (files included)
          Ops,          \* kinds of request used
          Rand,         \* draw at random
          FileNames,    \* archive files, contents generated first
          Enc           \* requests and strings may go through the per-stream binary tables

VARIABLES st,      \* interpreter state
          src,     \* Seq of items issued at top level
          files,   \* name -> Seq of items
          open,    \* stack of open scopes of the stream being written
          cnt, cur, done,    \* cur: which stream is being written ("" = main)
          tab      \* the tables of the stream being written: code -> request kind / string
vars == <<st, src, files, open, cnt, cur, done, tab>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
Gate(n) == IF Rand THEN RandomElement(1..n) = 1 ELSE TRUE

It(op, x) == [op |-> op, x |-> x, line |-> Len(src) + 1, enc |-> "plain", code |-> 0, senc |-> "plain", scode |-> 0]
(* Tables belong to one stream: a stream starts with empty ones, and what a nested *)
(* stream defines is forgotten when it ends.                                       *)
NoTab == [req |-> [c \in {} |-> ""], str |-> [c \in {} |-> ""]]
Kind(it) == IF it.op = "leaf" THEN it.op \o ToString((cnt + 1) % 14) ELSE it.op
HasStr(it) == it.op \in {"IF", "EI", "AB", "RA"}
Codes == 0..2
How(t, k) == {[e |-> "plain", c |-> 0]} \cup {[e |-> "def", c |-> c] : c \in Codes} \cup {[e |-> "use", c |-> c] : c \in {c \in DOMAIN t : t[c] = k}}
After(t, h, k) == IF h.e = "def" THEN (h.c :> k) @@ t ELSE t
(* names, and their level: a container may refer only to lower levels *)
Archs == {"a", "b", "c"}
Objs == {"1", "2"}
Level(n) == CASE n = "f1" -> 1 [] n = "a" -> 2 [] n = "1" -> 3 [] n = "b" -> 4 [] n = "f2" -> 5 [] n = "2" -> 6 [] n = "c" -> 7 [] OTHER -> 9

S0 == [arch |-> [n \in {} |-> <<>>], obj |-> [n \in {} |-> <<>>], rec |-> "", kind |-> "", nest |-> 0, buf |-> <<>>,
       ifs |-> <<>>, inact |-> FALSE, found |-> FALSE, outp |-> <<>>]

RECURSIVE Exec(_, _, _), ExecAll(_, _, _)
ExecAll(s, items, fs) == IF items = <<>> THEN s ELSE ExecAll(Exec(s, Head(items), fs), Tail(items), fs)
Exec(s, it, fs) ==
  \* a malformed request is reported where and when it is read
  IF it.op = "err" THEN [s EXCEPT !.outp = Append(@, "X:" \o it.x \o ":" \o ToString(it.line))]
  ELSE IF s.rec # "" THEN
    CASE it.op = "AB" -> [s EXCEPT !.nest = @ + 1, !.buf = Append(@, it)]
      [] it.op = "AE" /\ s.nest > 0 -> [s EXCEPT !.nest = @ - 1, !.buf = Append(@, it)]
      [] it.op = "AE" -> [s EXCEPT !.arch = (s.rec :> s.buf) @@ @, !.rec = "", !.buf = <<>>]
      [] it.op = "OE" /\ s.kind = "o" -> [s EXCEPT !.obj = (s.rec :> s.buf) @@ @, !.rec = "", !.buf = <<>>]
      [] OTHER -> [s EXCEPT !.buf = Append(@, it)]
  ELSE
    CASE it.op = "IF" -> IF s.inact THEN [s EXCEPT !.ifs = <<[o |-> TRUE, f |-> s.found]>> \o @]
                         ELSE [s EXCEPT !.ifs = <<[o |-> FALSE, f |-> s.found]>> \o @, !.found = it.x = "T", !.inact = it.x # "T"]
      [] it.op = "EI" -> IF s.ifs[1].o THEN s
                         ELSE IF s.found THEN [s EXCEPT !.inact = TRUE] ELSE [s EXCEPT !.found = it.x = "T", !.inact = it.x # "T"]
      [] it.op = "EL" -> IF s.ifs[1].o THEN s ELSE [s EXCEPT !.inact = s.found]
      [] it.op = "FI" -> [s EXCEPT !.inact = s.ifs[1].o, !.found = s.ifs[1].f, !.ifs = Tail(@)]
      [] s.inact -> s
      [] it.op = "AB" -> [s EXCEPT !.rec = it.x, !.kind = "a", !.buf = <<>>]
      [] it.op = "OB" -> [s EXCEPT !.rec = it.x, !.kind = "o", !.buf = <<>>]
      [] it.op = "RA" -> IF it.x \in DOMAIN s.arch THEN ExecAll(s, s.arch[it.x], fs)
                         ELSE IF it.x \in DOMAIN fs THEN ExecAll(s, fs[it.x], fs) ELSE [s EXCEPT !.outp = Append(@, "E:" \o it.x)]
      [] it.op = "OI" -> IF it.x \in DOMAIN s.obj THEN ExecAll(s, s.obj[it.x], fs) ELSE [s EXCEPT !.outp = Append(@, "E:" \o it.x)]
      [] it.op = "leaf" -> [s EXCEPT !.outp = Append(@, it.x)]
      [] OTHER -> s

-----------------------------------------------------------------------------
Init == /\ st = S0 /\ src = <<>> /\ files = [n \in {} |-> <<>>] /\ open = <<>> /\ cnt = 0 /\ done = FALSE /\ tab = NoTab
        /\ cur = IF "f1" \in FileNames THEN "f1" ELSE IF "f2" \in FileNames THEN "f2" ELSE ""
Lvl == LET ls == { Level(open[i].n) : i \in DOMAIN open } \cup {IF cur = "" THEN 9 ELSE Level(cur)}
       IN CHOOSE l \in ls : \A k \in ls : l <= k
InObj == \E i \in DOMAIN open : open[i].k = "obj"
Put(it) == /\ cnt' = cnt + 1
           /\ st' = IF cur = "" THEN Exec(st, it, files) ELSE st
           /\ IF ~Enc \/ it.op = "err" THEN src' = Append(src, it) /\ UNCHANGED tab
              ELSE \E h \in Pick(How(tab.req, Kind(it))) : \E g \in (IF HasStr(it) THEN Pick(How(tab.str, it.x)) ELSE {[e |-> "plain", c |-> 0]}) :
                     /\ src' = Append(src, [it EXCEPT !.enc = h.e, !.code = h.c, !.senc = g.e, !.scode = g.c])
                     /\ tab' = [req |-> After(tab.req, h, Kind(it)), str |-> After(tab.str, g, it.x)]
Push(k, n) == open' = <<[k |-> k, n |-> n]>> \o open
Top(k) == IF open = <<>> THEN FALSE ELSE open[1].k = k
More == ~done /\ cnt < MaxItems
Leaf == /\ More /\ "leaf" \in Ops /\ Put(It("leaf", ToString(cnt + 1))) /\ UNCHANGED <<files, open, cur, done>>
Err == /\ More /\ "err" \in Ops /\ Put(It("err", cur)) /\ UNCHANGED <<files, open, cur, done>>
If == /\ More /\ "IF" \in Ops /\ Len(open) < 5 /\ \E c \in Pick({"T", "F"}) : Put(It("IF", c)) /\ Push("if", "") /\ UNCHANGED <<files, cur, done>>
ElseIf == /\ More /\ Top("if") /\ \E c \in Pick({"T", "F"}) : Put(It("EI", c)) /\ UNCHANGED <<files, open, cur, done>>
Else == /\ More /\ Top("if") /\ Put(It("EL", "")) /\ open' = <<[k |-> "else", n |-> ""]>> \o Tail(open) /\ UNCHANGED <<files, cur, done>>
Fi == /\ ~done /\ (Top("if") \/ Top("else")) /\ Put(It("FI", "")) /\ open' = Tail(open) /\ UNCHANGED <<files, cur, done>>
ArchB == /\ More /\ "AB" \in Ops /\ ~InObj /\ Len(open) < 5 /\ \E n \in Pick(Archs) : (IF n \in {open[i].n : i \in DOMAIN open} THEN FALSE ELSE TRUE) /\ Put(It("AB", n)) /\ Push("arch", n)
         /\ UNCHANGED <<files, cur, done>>
ArchE == /\ ~done /\ Top("arch") /\ Put(It("AE", "")) /\ open' = Tail(open) /\ UNCHANGED <<files, cur, done>>
ObjB == /\ More /\ "OB" \in Ops /\ ~InObj /\ Len(open) < 5 /\ \E n \in Pick(Objs) : Put(It("OB", n)) /\ Push("obj", n) /\ UNCHANGED <<files, cur, done>>
ObjE == /\ ~done /\ Top("obj") /\ Put(It("OE", "")) /\ open' = Tail(open) /\ UNCHANGED <<files, cur, done>>
Read == /\ More /\ "RA" \in Ops /\ LET c == {n \in Archs \cup FileNames : Level(n) < Lvl} IN c # {} /\ \E n \in Pick(c) : Put(It("RA", n)) /\ UNCHANGED <<files, open, cur, done>>
Inst == /\ More /\ "OB" \in Ops /\ LET c == {n \in Objs : Level(n) < Lvl} IN c # {} /\ \E n \in Pick(c) : Put(It("OI", n)) /\ UNCHANGED <<files, open, cur, done>>
(* finish the file being written *)
EndFile == /\ ~done /\ cur # "" /\ open = <<>> /\ src # <<>> /\ Gate(4)
           /\ files' = (cur :> src) @@ files /\ src' = <<>>
           /\ cur' = (IF cur = "f1" /\ "f2" \in FileNames THEN "f2" ELSE "")
           /\ tab' = NoTab
           /\ UNCHANGED <<st, open, cnt, done>>
Stop == /\ ~done /\ cur = "" /\ open = <<>> /\ src # <<>> /\ (IF Rand THEN cnt >= MaxItems ELSE TRUE) /\ done' = TRUE /\ UNCHANGED <<st, src, files, open, cnt, cur, tab>>
Next == Leaf \/ Err \/ If \/ ElseIf \/ Else \/ Fi \/ ArchB \/ ArchE \/ ObjB \/ ObjE \/ Read \/ Inst \/ EndFile \/ Stop

(* scoping: at the end nothing is being recorded and no condition is pending *)
Balanced == done => st.rec = "" /\ st.ifs = <<>> /\ ~st.inact
NoInvention == \A i \in DOMAIN st.outp : Len(st.outp[i]) > 0
Bound == Len(st.outp) < 400
Emit == done /\ Len(st.outp) < 400 => PrintT("@@" \o ToJson([src |-> src, files |-> [n \in DOMAIN files |-> files[n]], outp |-> st.outp]))
=============================================================================
