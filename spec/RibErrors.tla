------------------------------ MODULE RibErrors -----------------------------
(* How a RIB token stream is turned into requests and diagnostics, for ANY token  *)
(* sequence, well formed or not.  The environment appends tokens; the recogniser   *)
(* (mode, tmpl, ...) consumes them.  Every malformed request gives exactly one     *)
(* diagnostic and is dropped, everything up to the next request is skipped, and    *)
(* all other requests are delivered.                                               *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Toks,      \* the set of token kinds used freely
          MaxTok,    \* bound on the stream length
          Planned,   \* TRUE: mostly well-formed requests with occasional deviations
          Seps       \* the separators used

VARIABLES toks,   \* Seq of [k, v, sep]
          line,   \* line of the next token
          m,      \* recogniser state
          ev,     \* events: calls and errors
          plan, done
vars == <<toks, line, m, ev, plan, done>>

(* kind, text *)
T(k, v) == [k |-> k, v |-> v]
AllToks == { T("INT", "1"), T("INT", "2"), T("INT", "-3"), T("FLT", "0.5"), T("FLT", "-1.25"), T("STR", "zz"), T("STR", "outside"),
             T("STR", "uniform float fa"), T("STR", "uniform string sa"), T("STR", "uniform int ia"), T("STR", "nosuch"), T("STR", ""),
             T("LB", "["), T("RB", "]"), T("ERR", "plus"), T("ERR", "exp"), T("ERR", "dot"), T("ERR", "reserved"), T("ERR", "undefstr"), T("ERR", "undefreq"),
             T("REQ", "Sides"), T("REQ", "Translate"), T("REQ", "Color"), T("REQ", "Orientation"), T("REQ", "MotionBegin"),
             T("REQ", "TransformBegin"), T("REQ", "Surface"), T("REQ", "LightSource"), T("REQ", "PointsPolygons"), T("REQ", "Bound"),
             T("REQ", "Clipping"), T("REQ", "Frobnicate"), T("REQ", "sides"), T("REQ", "Identity"), T("REQ", "TrimCurve"), T("REQ", "Transform") }
FewToks == { T("INT", "1"), T("FLT", "0.5"), T("STR", "zz"), T("STR", "uniform float fa"), T("STR", "nosuch"),
             T("LB", "["), T("RB", "]"), T("ERR", "reserved"), T("REQ", "Sides"), T("REQ", "Translate"), T("REQ", "Surface"), T("REQ", "Frobnicate"),
             T("REQ", "MotionBegin"), T("REQ", "TransformBegin"), T("REQ", "LightSource") }

Known == [ Sides |-> <<"I">>, Translate |-> <<"F","F","F">>, Color |-> <<"FA3">>, Orientation |-> <<"S">>, MotionBegin |-> <<"FA">>,
           TransformBegin |-> <<>>, Surface |-> <<"S","P">>, LightSource |-> <<"S","N","P">>, PointsPolygons |-> <<"IA","IA","P">>,
           Bound |-> <<"FA6">>, Clipping |-> <<"F","F">>, Identity |-> <<>>,
           TrimCurve |-> <<"IA","IA","FA","FA","FA","IA","FA","FA","FA">>, Transform |-> <<"FB16">> ]
FixedLen == [ FA3 |-> 3, FA6 |-> 6 ]
ParamType == [ s \in {"uniform float fa", "uniform string sa", "uniform int ia"} |->
                 CASE s = "uniform float fa" -> "F" [] s = "uniform string sa" -> "S" [] OTHER -> "I" ]

M0 == [mode |-> "top", req |-> "", t |-> <<>>, a |-> <<>>, in |-> "", n |-> 0, len |-> -1, rl |-> 0]

(* recogniser: returns [m, ev] *)
RECURSIVE Feed(_, _, _, _)
Top(mm) == [mm EXCEPT !.mode = "top", !.in = "", !.t = <<>>]
CallEv(mm) == [c |-> TRUE, n |-> mm.req, a |-> mm.a, lo |-> 0, hi |-> 0]
ErrEv(mm, ln) == [c |-> FALSE, n |-> mm.req, a |-> <<>>, lo |-> (IF mm.req = "" THEN ln ELSE mm.rl), hi |-> ln]
(* the arguments read so far complete the request? *)
Advance(mm, e) == IF mm.t = <<>> THEN [m |-> Top(mm), ev |-> Append(e, CallEv(mm))] ELSE [m |-> mm, ev |-> e]
Fail(mm, e, tok, ln) ==
   LET e1 == Append(e, ErrEv(mm, ln)) IN
   IF tok.k = "REQ" THEN Feed(Top(mm), e1, tok, ln)
   ELSE IF tok.k = "EOF" THEN [m |-> [mm EXCEPT !.mode = "end"], ev |-> e1]
   ELSE [m |-> [mm EXCEPT !.mode = "skip", !.in = ""], ev |-> e1]
Take(mm, tok) == [mm EXCEPT !.a = Append(@, tok)]
Pop(mm) == [mm EXCEPT !.t = Tail(@)]
Enter(mm, kind, len) == [mm EXCEPT !.in = kind, !.n = 0, !.len = len]
IsNum(tok) == tok.k \in {"INT", "FLT"}
Fits(ty, tok) == (ty = "F" /\ IsNum(tok)) \/ (ty = "I" /\ tok.k = "INT") \/ (ty = "S" /\ tok.k = "STR")
Feed(mm, e, tok, ln) ==
  CASE mm.mode = "top" ->
         IF tok.k = "EOF" THEN [m |-> [mm EXCEPT !.mode = "end"], ev |-> e]
         ELSE IF tok.k = "REQ" THEN
            IF tok.v \in DOMAIN Known
            THEN Advance([M0 EXCEPT !.mode = "args", !.req = tok.v, !.t = Known[tok.v], !.rl = ln], e)
            ELSE [m |-> [M0 EXCEPT !.mode = "skip"], ev |-> Append(e, ErrEv([M0 EXCEPT !.req = tok.v, !.rl = ln], ln))]
         ELSE [m |-> [M0 EXCEPT !.mode = "skip"], ev |-> Append(e, ErrEv(M0, ln))]
    [] mm.mode = "skip" ->
         IF tok.k = "REQ" THEN Feed([mm EXCEPT !.mode = "top"], e, tok, ln)
         ELSE IF tok.k = "EOF" THEN [m |-> [mm EXCEPT !.mode = "end"], ev |-> e] ELSE [m |-> mm, ev |-> e]
    [] mm.mode = "args" /\ mm.in # "" ->
         IF tok.k = "RB"
         THEN IF mm.len >= 0 /\ mm.n # mm.len THEN [m |-> [mm EXCEPT !.mode = "skip", !.in = ""], ev |-> Append(e, ErrEv(mm, ln))]
              ELSE Advance(Pop([mm EXCEPT !.in = ""]), e)
         ELSE IF Fits(mm.in, tok)
              THEN [m |-> Take([mm EXCEPT !.n = @ + 1], tok), ev |-> e]
         ELSE Fail(mm, e, tok, ln)
    [] mm.mode = "args" ->
         LET h == Head(mm.t) IN
         CASE h = "I" -> IF tok.k = "INT" THEN Advance(Pop(Take(mm, tok)), e) ELSE Fail(mm, e, tok, ln)
           [] h = "F" -> IF IsNum(tok) THEN Advance(Pop(Take(mm, tok)), e) ELSE Fail(mm, e, tok, ln)
           [] h = "S" -> IF tok.k = "STR" THEN Advance(Pop(Take(mm, tok)), e) ELSE Fail(mm, e, tok, ln)
           [] h = "N" -> IF tok.k \in {"STR", "INT"} THEN Advance(Pop(Take(mm, tok)), e) ELSE Fail(mm, e, tok, ln)
           [] h \in DOMAIN FixedLen ->
                IF tok.k = "LB" THEN [m |-> Enter(mm, "F", FixedLen[h]), ev |-> e]
                ELSE Feed([mm EXCEPT !.t = [i \in 1..FixedLen[h] |-> "F"] \o Tail(@)], e, tok, ln)
           [] h = "FA" -> IF tok.k = "LB" THEN [m |-> Enter(mm, "F", -1), ev |-> e] ELSE Fail(mm, e, tok, ln)
           [] h = "FB16" -> IF tok.k = "LB" THEN [m |-> Enter(mm, "F", 16), ev |-> e] ELSE Fail(mm, e, tok, ln)
           [] h = "IA" -> IF tok.k = "LB" THEN [m |-> Enter(mm, "I", -1), ev |-> e] ELSE Fail(mm, e, tok, ln)
           [] h = "P" ->
                IF tok.k = "STR"
                THEN IF tok.v \in DOMAIN ParamType THEN [m |-> [Take(mm, tok) EXCEPT !.t = <<"pv" \o ParamType[tok.v], "P">>], ev |-> e]
                     ELSE [m |-> [mm EXCEPT !.mode = "skip"], ev |-> Append(e, ErrEv(mm, ln))]
                ELSE IF tok.k \in {"REQ", "EOF", "RB", "ERR"} THEN Feed(Top(mm), Append(e, CallEv(mm)), tok, ln)
                ELSE Fail(mm, e, tok, ln)
           [] h \in {"pvF", "pvI", "pvS"} ->
                LET ty == SubSeq(h, 3, 3) IN
                IF tok.k = "LB" THEN [m |-> Enter(mm, ty, -1), ev |-> e]
                ELSE IF Fits(ty, tok)
                     THEN Advance(Pop(Take(mm, tok)), e) ELSE Fail(mm, e, tok, ln)
    [] OTHER -> [m |-> mm, ev |-> e]

-----------------------------------------------------------------------------
I1 == T("INT", "1")  F1 == T("FLT", "0.5")  S1 == T("STR", "zz")  LB == T("LB", "[")  RB == T("RB", "]")
Plans == { <<T("REQ","Sides"), T("INT","2")>>, <<T("REQ","Translate"), I1, F1, T("FLT","-1.25")>>, <<T("REQ","Color"), LB, F1, I1, F1, RB>>,
           <<T("REQ","Color"), F1, F1, I1>>, <<T("REQ","Orientation"), T("STR","outside")>>, <<T("REQ","MotionBegin"), LB, T("INT", "-3"), F1, I1, RB>>,
           <<T("REQ","TransformBegin")>>, <<T("REQ","Surface"), S1>>, <<T("REQ","Surface"), S1, T("STR","uniform float fa"), LB, F1, RB, T("STR", "uniform string sa"), LB, S1, RB>>,
           <<T("REQ","Surface"), S1, T("STR","uniform int ia"), I1>>, <<T("REQ","LightSource"), S1, I1>>, <<T("REQ","LightSource"), S1, S1, T("STR","uniform float fa"), F1>>,
           <<T("REQ","PointsPolygons"), LB, I1, I1, RB, LB, T("INT","2"), I1, RB>>, <<T("REQ","Bound"), F1, F1, I1, I1, F1, I1>>, <<T("REQ","Bound"), LB, F1, F1, I1, I1, F1, I1, RB>>,
           <<T("REQ","Clipping"), F1, I1>>, <<T("REQ","Identity")>>,
           <<T("REQ","TrimCurve"), LB, I1, RB, LB, I1, RB, LB, F1, RB, LB, F1, RB, LB, F1, RB, LB, I1, RB, LB, F1, RB, LB, F1, RB, LB, F1, RB>>,
           <<T("REQ","Transform"), LB, I1, I1, I1, I1, F1, F1, F1, F1, I1, I1, I1, I1, F1, F1, F1, F1, RB>> }

SepLines == [ sp |-> 0, nl |-> 1, crlf |-> 1, cr |-> 1, comment |-> 1, nlnl |-> 2, tab |-> 0, long |-> 1 ]
Init == toks = <<>> /\ line = 1 /\ m = M0 /\ ev = <<>> /\ plan = <<>> /\ done = FALSE

Put(tok, s) ==
   LET r == Feed(m, ev, tok, line) IN
   /\ toks' = Append(toks, [k |-> tok.k, v |-> tok.v, sep |-> s]) /\ line' = line + SepLines[s]
   /\ m' = r.m /\ ev' = r.ev
Free == /\ ~done /\ ~Planned /\ Len(toks) < MaxTok /\ \E tok \in Toks, s \in Seps : Put(tok, s)
        /\ UNCHANGED <<plan, done>>
NewPlan == /\ ~done /\ Planned /\ plan = <<>> /\ Len(toks) < MaxTok /\ plan' = RandomElement(Plans)
           /\ UNCHANGED <<toks, line, m, ev, done>>
Follow == /\ ~done /\ plan # <<>> /\ Put(Head(plan), RandomElement(Seps)) /\ plan' = Tail(plan) /\ UNCHANGED done
Deviate == /\ ~done /\ plan # <<>> /\ RandomElement(1..5) = 1
           /\ \/ plan' = Tail(plan) /\ UNCHANGED <<toks, line, m, ev>>                              \* drop a token
              \/ Put(RandomElement(Toks), RandomElement(Seps)) /\ plan' = Tail(plan)                \* replace
              \/ Put(RandomElement(Toks), RandomElement(Seps)) /\ UNCHANGED plan                    \* insert
              \/ plan' = <<>> /\ UNCHANGED <<toks, line, m, ev>>                                    \* cut the request short
           /\ UNCHANGED done
Stop == /\ ~done /\ (IF Planned THEN plan = <<>> /\ Len(toks) >= MaxTok ELSE TRUE)
        /\ LET r == Feed(m, ev, T("EOF", ""), line) IN m' = r.m /\ ev' = r.ev
        /\ done' = TRUE /\ UNCHANGED <<toks, line, plan>>
Next == Free \/ NewPlan \/ Follow \/ Deviate \/ Stop

(* properties of the recogniser itself *)
NReq == LET RECURSIVE C(_)
            C(i) == IF i = 0 THEN 0 ELSE C(i-1) + (IF toks[i].k = "REQ" THEN 1 ELSE 0) IN C(Len(toks))
NCalls == LET RECURSIVE C(_)
              C(i) == IF i = 0 THEN 0 ELSE C(i-1) + (IF ev[i].c THEN 1 ELSE 0) IN C(Len(ev))
(* every request token ends as one call or one diagnostic; nothing is invented *)
Accounted == done => /\ NCalls <= NReq /\ Len(ev) <= 2 * NReq + 1
LinesOK == \A i \in DOMAIN ev : ~ev[i].c => ev[i].lo <= ev[i].hi /\ ev[i].hi <= line
EndOK == done => m.mode = "end"
Emit == done => PrintT("@@" \o ToJson([toks |-> toks, ev |-> ev]))
=============================================================================
