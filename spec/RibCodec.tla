------------------------------ MODULE RibCodec ------------------------------
(* The RIB byte stream as a state machine: one step appends one token, in any of  *)
(* the encodings the format allows, to the stream and its meaning to the request  *)
(* being built.  The two encoding tables (defined requests, defined strings) are   *)
(* part of the state of the stream.  Behaviours are replayed into the real parser, *)
(* which has to produce exactly `sem'.                                             *)
EXTENDS RiRequests, TLC, Json

CONSTANTS Names,       \* the requests used
          Spaces,      \* whether padding steps are taken
          Rand,        \* TRUE: values and encodings are drawn at random (simulation), FALSE: all of them (BFS)
          MaxReq,      \* number of requests in one stream
          MaxDefs      \* number of table definitions in one stream

VARIABLES out,     \* Seq of chunks: the bytes written so far
          todo,    \* Seq of slots still to be written for the current request
          cur,     \* the request being built: [n |-> name, a |-> Seq of atoms]
          sem,     \* Seq of finished requests
          reqTab,  \* code -> request name or ""
          strTab,  \* code -> string or Undef
          dict,    \* declared parameter types
          defs, done
vars == <<out, todo, cur, sem, reqTab, strTab, dict, defs, done>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

A(s) == [t |-> "a", v |-> s]              \* ASCII text
B(b) == [t |-> "b", v |-> b]              \* raw bytes
Str(s) == [t |-> "s", v |-> s]            \* the bytes of a string
Pad(k, n) == [t |-> "pad", v |-> <<k, n>>]

-----------------------------------------------------------------------------
(* Numbers are m * 2^e. *)
Num(m, e) == [m |-> m, e |-> e]
IntVals == {0, 1, 7, -1, 127, 128, 255, 256, 1000, 65535, 65536, 8388607, 16777216, -32768, 2147483647, -65537}
FracVals == {Num(1, -1), Num(-1, -1), Num(3, -2), Num(-13, -3), Num(1025, -2), Num(257, -8), Num(65537, -8), Num(1,-8), Num(1, -16), Num(3, -16), Num(-5, -4),
             Num(16777213, -24), Num(-12345677, -20), Num(8388609, -33), Num(11184811, 40)}
NumVals == {Num(i, 0) : i \in {0, 1, -1, 2, 10, 255, 256, 4096, -70000, 524288}} \cup FracVals

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)
Pow2(k) == 2^k
RECURSIVE Pow5(_)
Pow5(k) == IF k = 0 THEN 1 ELSE 5 * Pow5(k-1)

BytesOf(x, w) == [i \in 1..w |-> (x \div Pow2(8*(w-i))) % 256]   \* big endian, x >= 0, w <= 3 (or x < 2^31)
SignedBytes4(x) == IF x >= 0 THEN BytesOf(x, 4)
                   ELSE LET c == -(x+1) IN [i \in 1..4 |-> 255 - BytesOf(c, 4)[i]]

F32(n) == IF n.m = 0 THEN <<0,0,0,0>>
          ELSE LET k == Log2(Abs(n.m)) ex == k + n.e + 127
                   man == IF k <= 23 THEN Abs(n.m) * Pow2(23-k) - Pow2(23) ELSE 0
                   s == IF n.m < 0 THEN 128 ELSE 0
               IN << s + ex \div 2, (ex % 2) * 128 + man \div 65536, (man \div 256) % 256, man % 256 >>
F64(n) == IF n.m = 0 THEN <<0,0,0,0,0,0,0,0>>
          ELSE LET k == Log2(Abs(n.m)) ex == k + n.e + 1023
                   man == (IF k <= 20 THEN Abs(n.m) * Pow2(20-k) ELSE Abs(n.m) \div Pow2(k-20)) - Pow2(20)
                   lo == IF k <= 20 THEN 0 ELSE (Abs(n.m) % Pow2(k-20)) * Pow2(28-k)     \* first byte of the low word
                   s == IF n.m < 0 THEN 128 ELSE 0
               IN << s + ex \div 16, (ex % 16) * 16 + man \div 65536, (man \div 256) % 256, man % 256, lo,0,0,0 >>

(* decimal digits of a fraction m*2^-k : m*5^k with k decimals *)
Digits(x, w) == LET s == ToString(x) IN IF Len(s) >= w THEN s ELSE
                 LET RECURSIVE Z(_)
                     Z(j) == IF j = 0 THEN "" ELSE "0" \o Z(j-1) IN Z(w - Len(s)) \o s
Sign(m) == IF m < 0 THEN "-" ELSE ""
Decimal(n) == \* e in -4..0
   LET k == -n.e  t == Abs(n.m) * Pow5(k)  p == Pow5(k) * Pow2(k)
   IN Sign(n.m) \o ToString(t \div p) \o "." \o Digits(t % p, IF k = 0 THEN 1 ELSE k)
LeadDot(n) == LET k == -n.e  t == Abs(n.m) * Pow5(k) IN Sign(n.m) \o "." \o Digits(t, k)   \* |value| < 1
Sci(n, E) == LET k == -n.e  t == Abs(n.m) * Pow5(k) IN Sign(n.m) \o ToString(t) \o E \o "-" \o ToString(k)
Atom(k, v, x) == [k |-> k, v |-> v, x |-> x]

(* all encodings of the integer i as an integer token *)
IntEnc(i) == { <<A(ToString(i) \o " ")>>, <<B(<<131>> \o SignedBytes4(i))>> }
     \cup (IF i >= 0 THEN {<<A("+" \o ToString(i) \o " ")>>} ELSE {})
     \cup (IF i \in 0..255 THEN {<<B(<<128>> \o BytesOf(i,1))>>} ELSE {})
     \cup (IF i \in 0..65535 THEN {<<B(<<129>> \o BytesOf(i,2))>>} ELSE {})
     \cup (IF i \in 0..16777215 THEN {<<B(<<130>> \o BytesOf(i,3))>>} ELSE {})

(* all encodings of the number n as a number token; x: is the encoding exact? *)
FltEnc(n) ==
   { [c |-> <<B(<<164>> \o F32(n))>>, x |-> TRUE] }
   \cup { [c |-> <<B(<<165>> \o F64(n))>>, x |-> TRUE] }
   \* digits of the double below the precision of a float only affect its rounding
   \cup (IF n.m = 0 THEN {} ELSE { [c |-> <<B(<<165>> \o [F64(n) EXCEPT ![5] = @ + d, ![7] = 255, ![8] = 129])>>, x |-> FALSE] : d \in {0, 7, 15} })
   \cup (IF n.e = 0 THEN { [c |-> c, x |-> TRUE] : c \in IntEnc(n.m) } ELSE {})
   \cup (IF n.e \in -4..0 THEN { [c |-> <<A(Decimal(n) \o " ")>>, x |-> FALSE],
                                 [c |-> <<A(Sci(n, "e") \o " ")>>, x |-> FALSE],
                                 [c |-> <<A(Sci(n, "E") \o "\t")>>, x |-> FALSE] } ELSE {})
   \cup (IF n.e \in -4..-1 /\ Abs(n.m) < Pow2(-n.e) THEN { [c |-> <<A(LeadDot(n) \o "\n")>>, x |-> FALSE] } ELSE {})
   \* fixed point: w bytes of which the last r are the fraction
   \cup { [c |-> <<B(<<128 + 4*r + (w-1)>> \o BytesOf(n.m * Pow2(8*r + n.e), w))>>, x |-> TRUE] :
          <<r, w>> \in { <<r, w>> \in (1..3) \X (1..4) :
                 IF n.m >= 0 /\ n.m < Pow2(15) /\ 8*r + n.e >= 0 /\ 8*r + n.e <= 15
                 THEN w = 4 \/ n.m * Pow2(8*r + n.e) < Pow2(8*w) ELSE FALSE } }

-----------------------------------------------------------------------------
Undef == "<undef>"
StrVals == {"a", "", "x y", "#not a comment", "[x]", "plastic", "fifteen_chars__", "sixteen_chars___", "a long string of more than twenty characters"}

StrLen(s) == Len(s)
LenBytes(s, w) == BytesOf(StrLen(s), w)
StrPlain(s) == { <<A("\""), Str(s), A("\"")>> }
     \cup { <<B(<<160 + w - 1>> \o LenBytes(s, w)), Str(s)>> : w \in 1..4 }
     \cup (IF StrLen(s) < 16 THEN { <<B(<<144 + StrLen(s)>>), Str(s)>> } ELSE {})
RefCode(c) == IF c < 256 THEN { <<B(<<207, c>>)>>, <<B(<<208, 0, c>>)>> } ELSE { <<B(<<208, c \div 256, c % 256>>)>> }
StrEnc(s) == StrPlain(s) \cup UNION { RefCode(c) : c \in { d \in DOMAIN strTab : strTab[d] = s } }

ReqEnc(n) == { <<A(n \o " ")>>, <<A("\n" \o n \o "\t")>>, <<A(n), Pad("comment", 5)>> }
     \cup { <<B(<<166, c>>)>> : c \in { d \in DOMAIN reqTab : reqTab[d] = n } }

-----------------------------------------------------------------------------
RecordableNames == AllNames \ {"Declare", "IfBegin", "ElseIf", "Else", "IfEnd", "ReadArchive", "ArchiveBegin", "ArchiveEnd", "ObjectBegin", "ObjectEnd", "ObjectInstance"}
Init == /\ out = <<>> /\ todo = <<>> /\ cur = [n |-> "", a |-> <<>>] /\ sem = <<>>
        /\ reqTab = [c \in {0, 7, 255} |-> ""] /\ strTab = [c \in {0, 1, 255, 300, 65535} |-> Undef]
        /\ dict = StdDict /\ defs = 0 /\ done = FALSE

(* slots are records [k kind, s string] *)
Sl(k) == [k |-> k, s |-> ""]
Head1(k) == IF todo = <<>> THEN FALSE ELSE Head(todo).k = k
Slots(seq) == [i \in DOMAIN seq |-> Sl(seq[i])]
Take(c, atoms) == /\ out' = out \o c /\ cur' = [cur EXCEPT !.a = @ \o atoms]
Rest == UNCHANGED <<sem, reqTab, strTab, defs, done>>

Start == /\ ~done /\ todo = <<>> /\ cur.n = "" /\ Len(sem) < MaxReq
         /\ \E n \in Pick(Names) : \E t \in Sig[n] : \E c \in Pick(ReqEnc(n)) :
              /\ out' = out \o c /\ cur' = [n |-> n, a |-> <<>>] /\ todo' = Slots(t)
         /\ UNCHANGED dict /\ Rest

IntAtom(i) == Atom("i", <<i, 0>>, TRUE)
EmitI == /\ Head1("I") /\ \E i \in Pick(IntVals) : \E c \in Pick(IntEnc(i)) : Take(c, <<IntAtom(i)>>)
         /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
EmitB == /\ Head1("B") /\ \E i \in Pick({0, 1}) : \E c \in Pick(IntEnc(i)) : Take(c, <<IntAtom(i)>>)
         /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
EmitF == /\ Head1("F") /\ \E n \in Pick(NumVals) : \E c \in Pick(FltEnc(n)) : Take(c.c, <<Atom("f", <<n.m, n.e>>, c.x)>>)
         /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
EmitS == /\ Head1("S") /\ \E s \in Pick(StrVals) : \E c \in Pick(StrEnc(s)) : Take(c, <<Atom("s", s, TRUE)>>)
         /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
(* a given string *)
EmitLit == /\ Head1("L") /\ LET s == Head(todo).s IN \E c \in Pick(StrEnc(s)) : Take(c, <<>>)
           /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
(* a handle: an integer stands for its decimal digits *)
EmitN == /\ Head1("N")
         /\ \/ \E i \in Pick({0, 1, 255, 70000, -5}) : \E c \in Pick(IntEnc(i)) : Take(c, <<Atom("s", ToString(i), TRUE)>>)
            \/ \E s \in Pick(StrVals) : \E c \in Pick(StrEnc(s)) : Take(c, <<Atom("s", s, TRUE)>>)
         /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
EmitBracket == /\ (Head1("[") \/ Head1("]"))
         /\ out' = Append(out, A(Head(todo).k)) /\ todo' = Tail(todo) /\ UNCHANGED <<cur, dict>> /\ Rest
(* arrays *)
Bracketed(k, n) == <<Sl("[")>> \o [i \in 1..n |-> Sl(k)] \o <<Sl("]")>>
EmitIA == /\ Head1("IA") /\ \E n \in Pick({1, 2, 5}) : todo' = Bracketed("I", n) \o Tail(todo)
          /\ UNCHANGED <<out, cur, dict>> /\ Rest
EmitSA == /\ Head1("SA") /\ \E n \in Pick({1, 2, 3}) : todo' = Bracketed("S", n) \o Tail(todo)
          /\ UNCHANGED <<out, cur, dict>> /\ Rest
FACounts(k) == IF k = "FA" THEN {1, 2, 3, 20} ELSE {FixedCount[k]}
IsFA == IF todo = <<>> THEN FALSE ELSE Head(todo).k = "FA" \/ Head(todo).k \in DOMAIN FixedCount
EmitFABracket == /\ IsFA /\ \E n \in Pick(FACounts(Head(todo).k)) : todo' = Bracketed("F", n) \o Tail(todo)
                 /\ UNCHANGED <<out, cur, dict>> /\ Rest
EmitFAOpen == /\ IsFA /\ (IF Head(todo).k = "FA" THEN FALSE ELSE Head(todo).k \notin MustBracket)
              /\ todo' = [i \in 1..FixedCount[Head(todo).k] |-> Sl("F")] \o Tail(todo)
              /\ UNCHANGED <<out, cur, dict>> /\ Rest
EmitFABinary == /\ IsFA
         /\ \E w \in Pick(1..4), n0 \in Pick(NumVals), n1 \in Pick(FracVals), k \in Pick(FACounts(Head(todo).k)) :
            LET vals == [i \in 1..k |-> IF i % 2 = 1 THEN n0 ELSE n1]
                RECURSIVE Cat(_)
                Cat(i) == IF i > k THEN <<>> ELSE F32(vals[i]) \o Cat(i+1)
            IN Take(<<B(<<200 + w - 1>> \o BytesOf(k, w) \o Cat(1))>>, [i \in 1..k |-> Atom("f", <<vals[i].m, vals[i].e>>, TRUE)])
         /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest

(* named functions *)
EmitFilt == /\ (Head1("FILT") \/ Head1("ERRF"))
            /\ \E s \in Pick(IF Head(todo).k = "FILT" THEN {"box","gaussian","triangle","mitchell","catmull-rom","sinc","disk","bessel"} ELSE {"ignore","print","abort"}) :
                 \E c \in Pick(StrEnc(s)) : Take(c, <<Atom("s", s, TRUE)>>)
            /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
I0(s) == [i \in DOMAIN s |-> IntAtom(s[i])]
Half(s) == [i \in DOMAIN s |-> Atom("f", <<s[i], -1>>, TRUE)]
Sixth(s) == [i \in DOMAIN s |-> Atom("f", <<s[i] * 2796203, -24>>, FALSE)]
BasisAtoms(n) ==
  CASE n = "bezier" -> I0(<<-1,3,-3,1, 3,-6,3,0, -3,3,0,0, 1,0,0,0>>)
    [] n = "b-spline" -> Sixth(<<-1,3,-3,1, 3,-6,3,0, -3,0,3,0, 1,4,1,0>>)
    [] n = "catmull-rom" -> Half(<<-1,3,-3,1, 2,-5,4,-1, -1,0,1,0, 0,2,0,0>>)
    [] n = "hermite" -> I0(<<2,1,-2,1, -3,-2,3,-1, 0,1,0,0, 1,0,0,0>>)
    [] n = "power" -> I0(<<1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1>>)
EmitBasis == /\ Head1("BASIS")
             /\ \/ /\ \E s \in Pick({"bezier", "b-spline", "catmull-rom", "hermite", "power"}) : \E c \in Pick(StrEnc(s)) : Take(c, BasisAtoms(s))
                   /\ todo' = Tail(todo)
                \/ /\ todo' = <<Sl("M16")>> \o Tail(todo) /\ UNCHANGED <<out, cur>>
             /\ UNCHANGED dict /\ Rest
(* Procedural name [args] [bound]: the bound comes first in the call *)
EmitProc == /\ Head1("PROC")
            /\ \E s \in Pick({"DelayedReadArchive", "RunProgram", "DynamicLoad"}), a1 \in Pick(StrVals), a2 \in Pick(StrVals), n0 \in Pick(NumVals), n1 \in Pick(FracVals) :
               \E c \in Pick(StrEnc(s)), e1 \in Pick(StrEnc(a1)), e2 \in Pick(StrEnc(a2)) :
               LET vals == [i \in 1..6 |-> IF i % 2 = 1 THEN n0 ELSE n1]
                   RECURSIVE Cat(_)
                   Cat(i) == IF i > 6 THEN <<>> ELSE F32(vals[i]) \o Cat(i+1)
                   two == s # "DelayedReadArchive"
               IN Take(c \o <<A("[")>> \o e1 \o (IF two THEN e2 ELSE <<>>) \o <<A("]"), B(<<200, 6>> \o Cat(1))>>,
                       [i \in 1..6 |-> Atom("f", <<vals[i].m, vals[i].e>>, TRUE)] \o <<Atom("s", s, TRUE), Atom("s", a1, TRUE)>> \o (IF two THEN <<Atom("s", a2, TRUE)>> ELSE <<>>))
            /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest
NoDof == /\ Head1("NODOF") /\ Take(<<>>, [i \in 1..3 |-> Atom("f", <<1, 128>>, FALSE)]) /\ todo' = Tail(todo) /\ UNCHANGED dict /\ Rest

(* declarations and parameter lists *)
EmitDecl == /\ Head1("DECL")
            /\ \E nm \in Pick(UserNames), ty \in Pick(UserTypes) : \E sp \in Pick(Spellings(ty)) : \E c \in Pick(StrEnc(nm)), e \in Pick(StrEnc(sp)) :
                 /\ Take(c \o e, <<Atom("s", nm, TRUE), Atom("s", sp, TRUE)>>)
                 /\ dict' = (nm :> ty) @@ dict
            /\ todo' = Tail(todo) /\ Rest
ValueSlots(ty, n) == LET k == TyKind[ty.t] cnt == TySize[ty.t] * ty.n * n IN
                     IF k = "F" /\ cnt \in {3, 4, 16} THEN {<<Sl(IF cnt = 3 THEN "A3" ELSE IF cnt = 4 THEN "A4" ELSE "M16")>>}
                     ELSE IF cnt = 1 THEN {<<Sl(k)>>, Bracketed(k, 1)} ELSE {Bracketed(k, cnt)}
(* within a parameter list even fixed-length values are bracketed or packed *)
PBracket(slots) == IF Len(slots) = 1 /\ Head(slots).k \in {"A3", "A4", "M16"}
                   THEN Bracketed("F", IF Head(slots).k = "A3" THEN 3 ELSE IF Head(slots).k = "A4" THEN 4 ELSE 16) ELSE slots
Param(nm, ty, txt) == \E v \in Pick(ValueSlots(ty, 1) \cup (IF ty.n * TySize[ty.t] < 4 THEN ValueSlots(ty, 2) ELSE {})) :
                        /\ cur' = [cur EXCEPT !.a = Append(@, Atom("s", Canon(ty) \o " " \o nm, TRUE))]
                        /\ todo' = <<[k |-> "L", s |-> txt]>> \o PBracket(v) \o todo
EmitParams == /\ Head1("P")
              /\ \/ /\ todo' = Tail(todo) /\ UNCHANGED cur
                 \/ \E nm \in Pick(DOMAIN dict) : Param(nm, dict[nm], nm)
                 \/ \E nm \in Pick(UserNames \cup {"P", "Kd", "fa"}), ty \in Pick(UserTypes) : \E sp \in Pick(Spellings(ty)) : Param(nm, ty, sp \o " " \o nm)
              /\ UNCHANGED <<out, dict>> /\ Rest

Finish == /\ todo = <<>> /\ cur.n # "" /\ sem' = Append(sem, cur) /\ cur' = [n |-> "", a |-> <<>>]
          /\ UNCHANGED <<out, todo, reqTab, strTab, dict, defs, done>>
(* table definitions and white space may stand between any two tokens *)
Gate(n) == IF Rand THEN RandomElement(1..n) = 1 ELSE TRUE
DefReq == /\ ~done /\ defs < MaxDefs /\ Gate(4) /\ defs' = defs + 1
          /\ \E c \in Pick(DOMAIN reqTab), n \in Pick(Names) : \E e \in Pick(StrEnc(n)) :
               /\ out' = out \o <<B(<<204, c>>)>> \o e /\ reqTab' = [reqTab EXCEPT ![c] = n]
          /\ UNCHANGED <<todo, cur, sem, strTab, dict, done>>
DefStr == /\ ~done /\ defs < MaxDefs /\ Gate(4) /\ defs' = defs + 1
          /\ \E c \in Pick(DOMAIN strTab), s \in Pick(StrVals \cup {"P", "vertex point da", "da"}) :
               \E e \in Pick(StrEnc(s)), d \in Pick(IF c < 256 THEN {<<205, c>>, <<206, 0, c>>} ELSE {<<206, c \div 256, c % 256>>}) :
               /\ out' = out \o <<B(d)>> \o e /\ strTab' = [strTab EXCEPT ![c] = s]
          /\ UNCHANGED <<todo, cur, sem, reqTab, dict, done>>
Space == /\ ~done /\ Spaces /\ Gate(5) /\ (IF out = <<>> THEN TRUE ELSE out[Len(out)].t # "pad")
         /\ \E k \in Pick({"space", "newline", "crlf", "comment"}), n \in Pick({1, 3, 60, 250}) : out' = Append(out, Pad(k, n))
         /\ UNCHANGED <<todo, cur, sem, reqTab, strTab, dict, defs, done>>
Stop == /\ ~done /\ cur.n = "" /\ Len(sem) = MaxReq /\ done' = TRUE
        /\ UNCHANGED <<out, todo, cur, sem, reqTab, strTab, dict, defs>>

Next == Start \/ EmitI \/ EmitB \/ EmitF \/ EmitS \/ EmitLit \/ EmitN \/ EmitBracket \/ EmitIA \/ EmitSA \/ EmitFABracket \/ EmitFAOpen \/ EmitFABinary
        \/ EmitFilt \/ EmitBasis \/ EmitProc \/ NoDof \/ EmitDecl \/ EmitParams \/ Finish \/ DefReq \/ DefStr \/ Space \/ Stop

TypeOK == /\ Len(sem) <= MaxReq /\ defs <= MaxDefs /\ (done => cur.n = "" /\ todo = <<>>)
          /\ \A nm \in DOMAIN dict : dict[nm].t \in DOMAIN TySize /\ dict[nm].n > 0
BytesOK == \A i \in DOMAIN out : out[i].t = "b" => \A j \in DOMAIN out[i].v : out[i].v[j] \in 0..255
Emit == done => PrintT("@@" \o ToJson([out |-> out, sem |-> sem]))
=============================================================================
