---------------------------- MODULE ShaderParams ----------------------------
(* The parameters of shaders.  A shader has parameters with defaults; a Surface request gives    *)
(* values to some of them, in the coordinate system then in force, which becomes the shader's        *)
(* space; a primitive may carry values of its own, in its object space, for parameters of the same       *)
(* name.  What the shader sees is the primitive's value, else the request's, else the default, with         *)
(* points, vectors and normals (and each element of arrays of them) in one space.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, MaxPrims, Values, Rand
VARIABLES prog, st, stack, prims, done
vars == <<prog, st, stack, prims, done>>
Pick(S) == IF Rand /\ Len(prog) >= 0 THEN {RandomElement(S)} ELSE S
Opt(S) == IF Rand THEN Pick(S) ELSE {CHOOSE e \in S : TRUE}
Dice(n) == IF Rand THEN RandomElement(IF Len(prog) >= 0 THEN 1..n ELSE {}) = 1 ELSE TRUE

(* kind of a parameter and number of elements *)
Param == [fu |-> <<"float", 1>>, fv |-> <<"float", 1>>, cu |-> <<"color", 1>>, cv |-> <<"color", 1>>, pu |-> <<"point", 1>>, pv |-> <<"point", 1>>, pw |-> <<"point", 1>>,
          vu |-> <<"vector", 1>>, vv |-> <<"vector", 1>>, nu |-> <<"normal", 1>>, nv |-> <<"normal", 1>>, su |-> <<"string", 1>>,
          fa |-> <<"float", 3>>, ca |-> <<"color", 2>>, pa |-> <<"point", 2>>, va |-> <<"vector", 2>>, na |-> <<"normal", 2>>, sa |-> <<"string", 2>>]
Names == DOMAIN Param
Varying == {"fv", "cv", "pv", "vv", "nv"}
Spatial(n) == Param[n][1] \in {"point", "vector", "normal"}
(* a value is a number; element k of it has these components *)
Elem(v, k) == <<v + k, 2 * v - 3 * k, 5 - v>>

(* a map: 3x3 linear part (columns are the images of the axes), translation, and 8 times the inverse transposed linear part *)
Axis == [k \in 1..3 |-> [c \in 1..3 |-> IF k = c THEN 1 ELSE 0]]
Id == [l |-> Axis, t |-> <<0, 0, 0>>, n |-> [k \in 1..3 |-> [c \in 1..3 |-> IF k = c THEN 8 ELSE 0]], s |-> 0]
Lin(l, p) == [c \in 1..3 |-> l[1][c] * p[1] + l[2][c] * p[2] + l[3][c] * p[3]]
Move(m, t) == [m EXCEPT !.t = [c \in 1..3 |-> m.t[c] + Lin(m.l, t)[c]]]
(* first turn axis a of the argument to b: 90 degrees about the third axis *)
Third(a, b) == 6 - a - b
Turn(m, a, b) == [m EXCEPT !.l = TLCEval([k \in 1..3 |-> IF k = a THEN m.l[b] ELSE IF k = b THEN [c \in 1..3 |-> 0 - m.l[a][c]] ELSE m.l[k]]),
                           !.n = TLCEval([k \in 1..3 |-> IF k = a THEN m.n[b] ELSE IF k = b THEN [c \in 1..3 |-> 0 - m.n[a][c]] ELSE m.n[k]])]
Stretch(m, a, f) == [m EXCEPT !.l = TLCEval([k \in 1..3 |-> IF k = a THEN [c \in 1..3 |-> f * m.l[k][c]] ELSE m.l[k]]),
                              !.n = TLCEval([k \in 1..3 |-> IF k = a THEN [c \in 1..3 |-> IF f = 2 THEN m.n[k][c] \div 2 ELSE f * m.n[k][c]] ELSE m.n[k]]), !.s = IF f = 2 THEN @ + 1 ELSE @]
(* value v of parameter n given in space m, in world space (normals times 8) *)
InWorld(n, m, v) == [k \in 1..Param[n][2] |->
   LET e == Elem(v, k) IN
   CASE Param[n][1] = "point" -> [c \in 1..3 |-> m.t[c] + Lin(m.l, e)[c]]
     [] Param[n][1] = "vector" -> Lin(m.l, e)
     [] Param[n][1] = "normal" -> Lin(m.n, e)
     [] OTHER -> e]
Default == [n \in Names |-> 1]
NoArg == [n \in Names |-> 0]
Init == prog = <<>> /\ st = [m |-> Id, sm |-> Id, args |-> NoArg, sh |-> 0] /\ stack = <<>> /\ prims = <<>> /\ done = FALSE
Do(op) == prog' = Append(prog, op)
MoveBy == \E x \in Opt(-2..2), y \in Opt({0, 1}), z \in Opt(-1..1) : st' = [st EXCEPT !.m = Move(@, <<x, y, z>>)] /\ Do([op |-> "Translate", x |-> x, y |-> y, z |-> z]) /\ UNCHANGED <<stack, prims>>
TurnBy == \E a \in Pick(1..3) : \E b \in Pick({1, 2, 3} \ {a}) : st' = [st EXCEPT !.m = Turn(@, a, b)] /\ Do([op |-> "Rotate", a |-> a, b |-> b]) /\ UNCHANGED <<stack, prims>>
ScaleBy == \E a \in Pick(1..3) : \E f \in Pick({2, -1}) : IF f = 2 /\ st.m.s = 3 THEN UNCHANGED <<prog, st, stack, prims>>
   ELSE st' = [st EXCEPT !.m = Stretch(@, a, f)] /\ Do([op |-> "Scale", a |-> a, f |-> f]) /\ UNCHANGED <<stack, prims>>
(* up to three arguments of a request *)
Args(S) == {f \in [Names -> Values \cup {0}] : Cardinality({n \in Names : f[n] # 0}) <= 3 /\ \A n \in Names : f[n] # 0 => n \in S}
SomeArgs(a, b, c, u, v, w) == [n \in Names |-> IF n = a THEN u ELSE IF n = b THEN v ELSE IF n = c THEN w ELSE 0]
Surface == \E a \in Pick(Names), u \in Pick(Values \cup {0}) : \E b \in Opt(Names), v \in Opt(Values) : \E c \in Opt(Names), w \in Opt(Values \cup {0}) : \E sh \in Opt({1, 2}) : LET f == TLCEval(SomeArgs(a, b, c, u, v, w)) IN
   st' = [st EXCEPT !.sm = st.m, !.args = f, !.sh = sh] /\ Do([op |-> "Surface", sh |-> sh, args |-> [n \in {x \in Names : f[x] # 0} |-> f[n]]]) /\ UNCHANGED <<stack, prims>>
Begin == \E k \in Pick({"Attribute", "Transform"}) : IF Len(stack) >= 4 THEN UNCHANGED <<prog, st, stack, prims>> ELSE stack' = Append(stack, [k |-> k, st |-> st]) /\ Do([op |-> k \o "Begin"]) /\ UNCHANGED <<st, prims>>
End == IF stack = <<>> THEN UNCHANGED <<prog, st, stack, prims>> ELSE LET t == stack[Len(stack)] IN
   /\ st' = (IF t.k = "Attribute" THEN t.st ELSE [st EXCEPT !.m = t.st.m]) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Do([op |-> t.k \o "End"]) /\ UNCHANGED prims
Prim == IF Len(prims) >= MaxPrims THEN UNCHANGED <<prog, st, stack, prims>> ELSE
  \E a \in Pick(Names), u \in Pick(Values \cup {0}) : \E b \in Opt(Names), v \in Opt(Values \cup {0}) : LET f == TLCEval(SomeArgs(a, b, b, u, v, v)) IN
   prims' = Append(prims, [own |-> f, st |-> st]) /\ Do([op |-> "Prim", own |-> [n \in {x \in Names : f[x] # 0} |-> f[n]], n |-> Len(prims) + 1]) /\ UNCHANGED <<st, stack>>
Close == ~done /\ Len(prog) >= MaxSteps /\ IF stack # <<>> THEN End /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED <<prog, st, stack, prims>>
Step == ~done /\ Len(prog) < MaxSteps /\ UNCHANGED done /\ \E c \in (IF Rand THEN Pick(1..10) ELSE {0}) :
   \/ (c \in {0, 1} /\ MoveBy)
   \/ (c \in {0, 2} /\ TurnBy)
   \/ (c \in {0, 3} /\ ScaleBy)
   \/ (c \in {0, 4, 5} /\ Surface)
   \/ (c \in {0, 6} /\ Begin)
   \/ (c \in {0, 7} /\ End)
   \/ (c \in {0, 8, 9, 10} /\ Prim)
Next == Step \/ Close
Spec == Init /\ [][Next]_vars

Seen(p, n) == IF p.own[n] # 0 THEN InWorld(n, p.st.m, p.own[n])
              ELSE IF p.st.args[n] # 0 THEN InWorld(n, p.st.sm, p.st.args[n])
              ELSE InWorld(n, IF n = "pw" THEN Id ELSE p.st.sm, Default[n])
(* the maps are consistent: normals stay perpendicular to what they were perpendicular to *)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Dual == \A i \in 1..3, j \in 1..3 : Dot(st.m.n[i], st.m.l[j]) = IF i = j THEN 8 ELSE 0
(* what a primitive carries wins; what nobody gives is the default *)
OwnWins == \A k \in DOMAIN prims : \A n \in Names : prims[k].own[n] # 0 /\ ~Spatial(n) => Seen(prims[k], n)[1] = Elem(prims[k].own[n], 1)
Fallback == \A k \in DOMAIN prims : \A n \in Names : prims[k].own[n] = 0 /\ prims[k].st.args[n] = 0 /\ ~Spatial(n) => Seen(prims[k], n)[1] = Elem(1, 1)
Emit == IF done /\ prims # <<>> THEN PrintT("@@" \o ToJson([prog |-> prog, prims |-> [k \in DOMAIN prims |-> [sh |-> prims[k].st.sh, see |-> [n \in Names |-> Seen(prims[k], n)]]]])) ELSE TRUE
=============================================================================
