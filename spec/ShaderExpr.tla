--------------------------- MODULE ShaderExpr ---------------------------
(* Values in the shading language: expressions over floats, triples (points,      *)
(* vectors, normals), colours, matrices, strings and arrays, assignments to whole  *)
(* variables and to array elements, guarded by conditions, and user functions with   *)
(* output parameters.  The state holds the variables of every shading point; each      *)
(* step adds a random statement and executes it.  All numbers are integers.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxStmts, Deep, LX, LY, Types, Rand

Lanes == (0..LX) \X (0..LY)
FV == {"f0", "f1", "f2"}      \* varying floats
FU == {"g0", "g1"}            \* uniform floats
VV == {"v0", "v1"}            \* triples
CV == {"c0", "c1"}            \* colours
MV == {"m0"}                  \* matrices
SV == {"s0", "s1"}            \* uniform strings
AN == 4                       \* elements of the float array r, and of the colour array k

VARIABLES prog, env, funs, done
vars == <<prog, env, funs, done>>
Pick(S) == IF Rand /\ Len(prog) >= 0 THEN {RandomElement(S)} ELSE S
N == Len(prog)
R(S) == RandomElement(S)

(* ---------- random expressions; sc: the variables that may be read, per type ---------- *)
Num(n) == [k |-> "num", a |-> R(0..(4 + 0 * n))]
Var(S) == [k |-> "var", v |-> R(S)]
Scope == [f |-> FV \cup {"x", "y"}, u |-> FU, v |-> VV, c |-> CV, m |-> MV, s |-> SV, arr |-> TRUE]
FunScope(fn) == [f |-> {fn.pn[i] : i \in {j \in DOMAIN fn.pt : fn.pt[j] = "f"}} \cup {"t"}, u |-> {}, v |-> {fn.pn[i] : i \in {j \in DOMAIN fn.pt : fn.pt[j] = "v"}}, c |-> {}, m |-> {}, s |-> {}, arr |-> FALSE]
B1 == {"rnd", "isq", "log2", "lg", "exp", "sin", "cos", "tan", "acos", "deg", "rad", "smooth", "root2"}   \* built-in functions of one number
RECURSIVE GenF(_, _, _, _), GenV(_, _, _), GenC(_, _, _), GenM(_, _, _, _), GenS(_, _), GenCond(_, _, _, _)
(* d: depth left, sc: scope, u: uniform only, n: current length (keeps TLC from folding) *)
LeafF(sc, u, n) == LET p == R(1..(4 + 0 * n)) IN IF p = 1 THEN Num(n) ELSE IF u THEN (IF sc.u = {} THEN Num(n) ELSE Var(sc.u)) ELSE IF p = 2 /\ sc.u # {} THEN Var(sc.u) ELSE IF sc.f = {} THEN Num(n) ELSE Var(sc.f)
GenF(d, sc, u, n) ==
  IF d = 0 THEN LeafF(sc, u, n)
  ELSE LET o == R({"leaf", "add", "sub", "mul", "add", "sub", "mul", "neg", "abs", "half", "min", "max", "clamp", "mod", "step", "mix", "sign", "cond", "ceil", "max3", "sq", "root"} \cup (IF n % 3 = 1 THEN B1 \cup {"atan2", "spl", "idiv"} ELSE {})
                   \cup (IF sc.arr THEN {"uix"} ELSE {}) \cup IF u \/ "v" \notin Types THEN {} ELSE {"comp", "dot", "vcomp"} \cup (IF n % 3 = 1 THEN {"dist", "ptl"} ELSE {}) \cup (IF "c" \in Types THEN {"ccomp"} ELSE {}) \cup (IF sc.arr THEN {"idx", "idx2"} ELSE {}) \cup (IF sc.m # {} /\ "m" \in Types THEN {"mcomp", "mdet"} ELSE {}))
       IN CASE o = "leaf" -> LeafF(sc, u, n)
            [] o \in {"add", "sub", "mul", "min", "max", "step"} -> [k |-> o, a |-> GenF(d-1, sc, u, n), b |-> GenF(d-1, sc, u, n)]
            [] o \in {"neg", "abs", "half", "mod", "sign", "ceil", "sq", "root"} \cup B1 -> [k |-> o, a |-> GenF(d-1, sc, u, n)]
            [] o \in {"atan2", "idiv"} -> [k |-> o, a |-> GenF(d-1, sc, u, n), b |-> GenF(d-1, sc, u, n)]
            [] o = "spl" -> [k |-> o, i |-> R(0..3), m |-> R(0..2), a |-> [j \in 1..6 |-> LeafF(sc, u, n)]]
            [] o = "uix" -> [k |-> o, a |-> GenF(d-1, sc, u, n)]
            [] o = "dist" -> [k |-> o, i |-> R(0..2), b |-> LeafF(sc, u, n), a |-> GenV(d-1, sc, n)]
            [] o = "ptl" -> [k |-> o, a |-> LeafF(sc, u, n), b |-> LeafF(sc, u, n), c |-> LeafF(sc, u, n)]
            [] o = "max3" -> [k |-> o, a |-> GenF(d-1, sc, u, n), b |-> GenF(d-1, sc, u, n), c |-> LeafF(sc, u, n)]
            [] o = "clamp" -> [k |-> o, a |-> GenF(d-1, sc, u, n), b |-> Num(n), c |-> Num(n)]
            [] o = "mix" -> [k |-> o, a |-> GenF(d-1, sc, u, n), b |-> GenF(d-1, sc, u, n), i |-> R(0..2)]
            [] o = "cond" -> [k |-> o, q |-> GenCond(d-1, sc, u, n), a |-> GenF(d-1, sc, u, n), b |-> GenF(d-1, sc, u, n)]
            [] o \in {"comp", "vcomp"} -> [k |-> "comp", i |-> R(0..2), a |-> GenV(d-1, sc, n)]
            [] o = "ccomp" -> [k |-> o, i |-> R(0..2), a |-> GenC(d-1, sc, n)]
            [] o = "dot" -> [k |-> o, a |-> GenV(d-1, sc, n), b |-> GenV(d-1, sc, n)]
            [] o \in {"idx", "idx2"} -> [k |-> "idx", a |-> GenF(d-1, sc, u, n)]
            [] o = "mcomp" -> [k |-> o, i |-> R(0..3), j |-> R(0..3), a |-> GenM(d-1, sc, n, FALSE)]
            [] o = "mdet" -> [k |-> o, a |-> GenM(1, sc, n, TRUE)]
GenV(d, sc, n) ==
  IF d = 0 \/ sc.v = {} THEN (IF sc.v = {} THEN [k |-> "vec", a |-> LeafF(sc, FALSE, n), b |-> LeafF(sc, FALSE, n), c |-> LeafF(sc, FALSE, n)] ELSE Var(sc.v))
  ELSE LET o == R({"leaf", "add", "sub", "cross", "vneg", "vmulf", "fmulv", "vec", "promote", "vcond", "vmul2"} \cup (IF n % 3 = 1 THEN {"vmin", "vmax", "vclamp", "vmix", "refl", "ff", "vnorm", "vrot", "vmulv"} ELSE {}) \cup (IF sc.m # {} /\ "m" \in Types THEN {"xform", "vxform", "nxform"} ELSE {}) \cup IF sc.c # {} /\ "c" \in Types THEN {"vofc"} ELSE {})
       IN CASE o = "leaf" -> Var(sc.v)
            [] o \in {"add", "sub", "cross"} -> [k |-> "v" \o o, a |-> GenV(d-1, sc, n), b |-> GenV(d-1, sc, n)]
            [] o \in {"vneg", "ff", "refl"} -> [k |-> o, i |-> R(0..2), a |-> GenV(d-1, sc, n), b |-> LeafF(sc, FALSE, n)]
            [] o \in {"vmin", "vmax", "vmulv"} -> [k |-> o, a |-> GenV(d-1, sc, n), b |-> GenV(d-1, sc, n)]
            [] o = "vclamp" -> [k |-> o, a |-> GenV(d-1, sc, n), b |-> R(0..2), c |-> R(2..5)]
            [] o = "vmix" -> [k |-> o, a |-> GenV(d-1, sc, n), b |-> GenV(d-1, sc, n), i |-> R(0..2)]
            [] o = "vnorm" -> [k |-> o, i |-> R(0..2), a |-> GenF(d-1, sc, FALSE, n)]
            [] o = "vrot" -> [k |-> o, i |-> R(0..2), a |-> GenV(d-1, sc, n), b |-> LeafF(sc, FALSE, n)]
            [] o = "vmul2" -> [k |-> o, a |-> GenV(d-1, sc, n)]
            [] o \in {"vmulf", "fmulv"} -> [k |-> o, a |-> GenV(d-1, sc, n), b |-> GenF(d-1, sc, FALSE, n)]
            [] o = "vec" -> [k |-> o, a |-> GenF(d-1, sc, FALSE, n), b |-> GenF(d-1, sc, FALSE, n), c |-> GenF(d-1, sc, FALSE, n)]
            [] o = "promote" -> [k |-> o, a |-> GenF(d-1, sc, FALSE, n)]
            [] o = "vcond" -> [k |-> o, q |-> GenCond(d-1, sc, FALSE, n), a |-> GenV(d-1, sc, n), b |-> GenV(d-1, sc, n)]
            [] o \in {"xform", "vxform"} -> [k |-> o, m |-> GenM(d-1, sc, n, TRUE), a |-> GenV(d-1, sc, n)]
            [] o = "nxform" -> [k |-> o, b |-> LeafF(sc, FALSE, n), c |-> LeafF(sc, FALSE, n), a |-> GenV(d-1, sc, n)]
            [] o = "vofc" -> [k |-> o, a |-> GenC(d-1, sc, n)]
GenC(d, sc, n) ==
  IF d = 0 THEN (IF sc.c = {} THEN [k |-> "col", a |-> LeafF(sc, FALSE, n), b |-> LeafF(sc, FALSE, n), c |-> LeafF(sc, FALSE, n)] ELSE Var(sc.c))
  ELSE LET o == R({"cadd", "csub", "cmul", "col", "cprom", "cmin", "cmax", "cmix", "ccond", "cmulf", "cofv", "cneg"} \cup (IF n % 3 = 1 THEN {"cclamp", "cspl"} ELSE {}) \cup IF sc.arr THEN {"cidx", "cidx2"} ELSE {})
       IN CASE o \in {"cadd", "csub", "cmul", "cmin", "cmax"} -> [k |-> o, a |-> GenC(d-1, sc, n), b |-> GenC(d-1, sc, n)]
            [] o = "col" -> [k |-> o, a |-> GenF(d-1, sc, FALSE, n), b |-> GenF(d-1, sc, FALSE, n), c |-> GenF(d-1, sc, FALSE, n)]
            [] o \in {"cprom"} -> [k |-> o, a |-> GenF(d-1, sc, FALSE, n)]
            [] o = "cclamp" -> [k |-> o, a |-> GenC(d-1, sc, n), b |-> R(0..2), c |-> R(2..5)]
            [] o = "cspl" -> [k |-> o, i |-> R(0..3), m |-> R(0..2), a |-> [j \in 1..6 |-> GenC(0, sc, n)]]
            [] o = "cneg" -> [k |-> o, a |-> GenC(d-1, sc, n)]
            [] o = "cmulf" -> [k |-> o, a |-> GenC(d-1, sc, n), b |-> GenF(d-1, sc, FALSE, n)]
            [] o = "cmix" -> [k |-> o, a |-> GenC(d-1, sc, n), b |-> GenC(d-1, sc, n), i |-> R(0..2)]
            [] o = "ccond" -> [k |-> o, q |-> GenCond(d-1, sc, FALSE, n), a |-> GenC(d-1, sc, n), b |-> GenC(d-1, sc, n)]
            [] o = "cofv" -> [k |-> o, a |-> GenV(d-1, sc, n)]
            [] o \in {"cidx", "cidx2"} -> [k |-> "cidx", a |-> GenF(d-1, sc, FALSE, n)]
GenM(d, sc, n, aff) ==
  IF d = 0 THEN Var(sc.m)
  ELSE LET o == R({"mul", "leaf", "lit", "mcond"} \cup (IF n % 3 = 1 THEN {"mtrans", "mscale", "mrot", "minv"} ELSE {}) \cup IF aff THEN {} ELSE {"diag"}) IN
       CASE o = "leaf" -> Var(sc.m) [] o = "mul" -> [k |-> "mmul", a |-> GenM(d-1, sc, n, aff), b |-> GenM(d-1, sc, n, aff)]
         [] o = "mcond" -> [k |-> o, q |-> GenCond(0, sc, FALSE, n), a |-> GenM(d-1, sc, n, aff), b |-> GenM(d-1, sc, n, aff)]
         [] o \in {"mtrans", "mscale"} -> [k |-> o, a |-> GenM(d-1, sc, n, aff), b |-> LeafF(sc, FALSE, n), v |-> <<R(1..2), R(0..2), R(1..3)>>]
         [] o = "mrot" -> [k |-> o, a |-> GenM(d-1, sc, n, aff), i |-> R(0..2), b |-> LeafF(sc, FALSE, n)]
         [] o = "minv" -> [k |-> o, a |-> GenM(d-1, sc, n, aff), b |-> LeafF(sc, FALSE, n), c |-> LeafF(sc, FALSE, n)]
         [] o = "diag" -> [k |-> "mdiag", a |-> GenF(d-1, sc, FALSE, n)]
         [] OTHER -> [k |-> "mlit", a |-> [i \in 1..9 |-> R(-1..2)], b |-> LeafF(sc, FALSE, n)]
GenS(sc, n) == LET o == R(1..(7 + 0 * n)) IN IF o = 6 THEN [k |-> "cat3", a |-> Var(sc.s), b |-> Var(sc.s), c |-> [k |-> "str", a |-> R({"a", "b"})]] ELSE IF o = 7 THEN [k |-> "fmt", a |-> Var(sc.s), b |-> LeafF(sc, TRUE, n)] ELSE IF o = 5 THEN [k |-> "scond", q |-> GenCond(0, [sc EXCEPT !.s = {}], TRUE, n), a |-> Var(sc.s), b |-> [k |-> "str", a |-> R({"a", "b"})]] ELSE IF o <= 2 THEN Var(sc.s) ELSE IF o = 3 THEN [k |-> "str", a |-> R({"", "a", "b", "ab", "ba"})] ELSE [k |-> "cat", a |-> Var(sc.s), b |-> [k |-> "str", a |-> R({"a", "b"})]]
GenCond(d, sc, u, n) == LET o == R({"cmp", "cmp", "and", "or"} \cup (IF u THEN {} ELSE {"veq"}) \cup (IF sc.s # {} THEN {"seq", "match"} ELSE {})) cm == [k |-> "cmp", o |-> R({"<", "<=", ">", ">=", "==", "!="}), a |-> GenF(d, sc, u, n), b |-> GenF(d, sc, u, n)]
  IN CASE o = "cmp" -> cm
       [] o = "veq" -> IF "v" \in Types THEN [k |-> o, o |-> R({"==", "!="}), a |-> GenV(d, sc, n), b |-> GenV(d, sc, n)] ELSE cm
       [] o = "match" -> [k |-> o, b |-> R(0..1), p |-> R({"a", "b", "ab", "aa", "ba"}), a |-> Var(sc.s)]
       [] o = "seq" -> [k |-> o, o |-> R({"==", "!="}), a |-> GenS(sc, n), b |-> GenS(sc, n)]
       [] OTHER -> [k |-> o, a |-> [k |-> "cmp", o |-> R({"<", ">=", "=="}), a |-> GenF(0, sc, u, n), b |-> GenF(0, sc, u, n)], b |-> [k |-> "cmp", o |-> R({"<", ">=", "!="}), a |-> GenF(0, sc, u, n), b |-> GenF(0, sc, u, n)]]

(* ---------- meaning ---------- *)
Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
M7(a) == ((a % 7) + 7) % 7
M7v(v) == <<M7(v[1]), M7(v[2]), M7(v[3])>>
Mul4(A, B) == [i \in 1..4 |-> [j \in 1..4 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j] + A[i][4]*B[4][j]]]
Diag(a) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN a ELSE 0]]
Lit(a, t) == <<<<a[1], a[2], a[3], 0>>, <<a[4], a[5], a[6], 0>>, <<a[7], a[8], a[9], 0>>, <<t, 1, 2, 1>>>>
Rot(i, t) ==   \* rotation of row vectors by t quarter turns about axis i (anticlockwise seen from its tip)
  LET c == CASE t % 4 = 0 -> 1 [] t % 4 = 2 -> -1 [] OTHER -> 0 s == CASE t % 4 = 1 -> 1 [] t % 4 = 3 -> -1 [] OTHER -> 0
      a == (i % 3) + 1 b == ((i + 1) % 3) + 1 IN   \* i = 1, 2, 3; a and b the next axes
  [x \in 1..4 |-> [y \in 1..4 |-> IF (x = a /\ y = a) \/ (x = b /\ y = b) THEN c ELSE IF x = a /\ y = b THEN s ELSE IF x = b /\ y = a THEN -s ELSE IF x = y THEN 1 ELSE 0]]
Tr(v) == <<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<v[1], v[2], v[3], 1>>>>
Sc(v) == <<<<v[1],0,0,0>>, <<0,v[2],0,0>>, <<0,0,v[3],0>>, <<0,0,0,1>>>>
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Row(v, w, M) == [j \in 1..3 |-> v[1]*M[1][j] + v[2]*M[2][j] + v[3]*M[3][j] + w*M[4][j]]
Aff(M) == M[1][4] = 0 /\ M[2][4] = 0 /\ M[3][4] = 0 /\ M[4][4] = 1   \* an affine matrix
RECURSIVE F(_, _, _), V(_, _, _), C(_, _, _), Mx(_, _, _), S(_, _, _), Q(_, _, _)
Rel(o, a, b) == CASE o = "<" -> a < b [] o = "<=" -> a <= b [] o = ">" -> a > b [] o = ">=" -> a >= b [] o = "==" -> a = b [] OTHER -> a # b
F(e, s, l) ==
  CASE e.k = "num" -> e.a [] e.k = "var" -> (IF e.v = "x" THEN l[1] ELSE IF e.v = "y" THEN l[2] ELSE s[e.v])
    [] e.k = "add" -> F(e.a, s, l) + F(e.b, s, l) [] e.k = "sub" -> F(e.a, s, l) - F(e.b, s, l) [] e.k = "mul" -> F(e.a, s, l) * F(e.b, s, l)
    [] e.k = "neg" -> -F(e.a, s, l) [] e.k = "abs" -> Abs(F(e.a, s, l)) [] e.k = "half" -> F(e.a, s, l) \div 2 [] e.k = "mod" -> M7(F(e.a, s, l))
    [] e.k = "sign" -> (IF 2 * F(e.a, s, l) + 1 < 0 THEN -1 ELSE 1)
    [] e.k = "min" -> Min(F(e.a, s, l), F(e.b, s, l)) [] e.k = "max" -> Max(F(e.a, s, l), F(e.b, s, l))
    [] e.k = "ceil" -> -((-F(e.a, s, l)) \div 2) [] e.k = "sq" -> (LET a == M7(F(e.a, s, l)) IN a * a) [] e.k = "root" -> Abs(F(e.a, s, l))
    [] e.k \in {"rnd", "exp", "deg", "rad", "lg", "acos", "tan"} -> M7(F(e.a, s, l)) [] e.k = "log2" -> M7(F(e.a, s, l)) [] e.k = "root2" -> Abs(F(e.a, s, l)) [] e.k = "isq" -> M7(F(e.a, s, l)) + 1
    [] e.k = "sin" -> (LET t == M7(F(e.a, s, l)) % 4 IN CASE t = 1 -> 1 [] t = 3 -> -1 [] OTHER -> 0) [] e.k = "cos" -> (LET t == M7(F(e.a, s, l)) % 4 IN CASE t = 0 -> 1 [] t = 2 -> -1 [] OTHER -> 0)
    [] e.k = "smooth" -> (LET m == M7(F(e.a, s, l)) IN m * m * (9 - m))
    [] e.k = "atan2" -> (LET y == Sgn(F(e.a, s, l)) x == Sgn(F(e.b, s, l)) IN   \* in eighths of a turn
          CASE x = 1 -> y [] x = 0 -> 2 * y [] y = 0 -> 4 [] OTHER -> 3 * y)
    [] e.k = "idiv" -> (LET a == M7(F(e.a, s, l)) b == M7(F(e.b, s, l)) + 1 IN a \div b)
    [] e.k = "spl" -> F(e.a[e.i + 2], s, l)
    [] e.k = "uix" -> s.h[(F(e.a, s, l) % AN) + 1]
    [] e.k = "dist" -> Abs(F(e.b, s, l)) [] e.k = "ptl" -> Max(0, Max(-F(e.b, s, l), F(e.b, s, l) - 3)) + Abs(F(e.a, s, l))
    [] e.k = "max3" -> Max(Max(F(e.a, s, l), F(e.b, s, l)), F(e.c, s, l))
    [] e.k = "step" -> (IF F(e.b, s, l) < F(e.a, s, l) THEN 0 ELSE 1)
    [] e.k = "clamp" -> (LET lo == Min(e.b.a, e.c.a) hi == Max(e.b.a, e.c.a) IN Max(lo, Min(hi, F(e.a, s, l))))
    [] e.k = "mix" -> (LET a == F(e.a, s, l) b == F(e.b, s, l) IN a * (1 - e.i) + b * e.i)
    [] e.k = "cond" -> IF Q(e.q, s, l) THEN F(e.a, s, l) ELSE F(e.b, s, l)
    [] e.k = "comp" -> V(e.a, s, l)[e.i + 1] [] e.k = "ccomp" -> C(e.a, s, l)[e.i + 1]
    [] e.k = "dot" -> (LET a == V(e.a, s, l) b == V(e.b, s, l) IN a[1]*b[1] + a[2]*b[2] + a[3]*b[3])
    [] e.k = "idx" -> s.r[(F(e.a, s, l) % AN) + 1]
    [] e.k = "mdet" -> (LET A == Mx(e.a, s, l) IN A[1][1]*(A[2][2]*A[3][3]-A[2][3]*A[3][2]) - A[1][2]*(A[2][1]*A[3][3]-A[2][3]*A[3][1]) + A[1][3]*(A[2][1]*A[3][2]-A[2][2]*A[3][1]))
    [] e.k = "mcomp" -> Mx(e.a, s, l)[e.i + 1][e.j + 1]
V(e, s, l) ==
  CASE e.k = "var" -> s[e.v]
    [] e.k \in {"vadd", "vsub"} -> (LET a == V(e.a, s, l) b == V(e.b, s, l) g == IF e.k = "vadd" THEN 1 ELSE -1 IN <<a[1]+g*b[1], a[2]+g*b[2], a[3]+g*b[3]>>)
    [] e.k = "vcross" -> (LET a == V(e.a, s, l) b == V(e.b, s, l) IN <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>)
    [] e.k = "vmin" -> (LET a == V(e.a, s, l) b == V(e.b, s, l) IN <<Min(a[1], b[1]), Min(a[2], b[2]), Min(a[3], b[3])>>)
    [] e.k = "vmax" -> (LET a == V(e.a, s, l) b == V(e.b, s, l) IN <<Max(a[1], b[1]), Max(a[2], b[2]), Max(a[3], b[3])>>)
    [] e.k = "vmulv" -> (LET a == V(e.a, s, l) b == V(e.b, s, l) IN <<a[1]*b[1], a[2]*b[2], a[3]*b[3]>>)
    [] e.k = "vclamp" -> (LET a == V(e.a, s, l) K(x) == Max(e.b, Min(e.c, x)) IN <<K(a[1]), K(a[2]), K(a[3])>>)
    [] e.k = "vmix" -> (LET a == V(e.a, s, l) b == V(e.b, s, l) IN [i \in 1..3 |-> a[i]*(1-e.i) + b[i]*e.i])
    [] e.k = "refl" -> [V(e.a, s, l) EXCEPT ![e.i + 1] = -@]
    [] e.k = "ff" -> (LET a == V(e.a, s, l) g == IF 2 * F(e.b, s, l) + 1 < 0 THEN 1 ELSE -1 IN <<g*a[1], g*a[2], g*a[3]>>)
    [] e.k = "vnorm" -> (LET a == 2 * F(e.a, s, l) + 1 IN [<<0, 0, 0>> EXCEPT ![e.i + 1] = IF a < 0 THEN -1 ELSE 1])
    [] e.k = "vrot" -> Row(V(e.a, s, l), 0, Rot(e.i + 1, M7(F(e.b, s, l))))
    [] e.k = "vneg" -> (LET a == V(e.a, s, l) IN <<-a[1], -a[2], -a[3]>>)
    [] e.k = "vmul2" -> (LET a == V(e.a, s, l) IN <<2*a[1], 2*a[2], 2*a[3]>>)
    [] e.k \in {"vmulf", "fmulv"} -> (LET a == V(e.a, s, l) b == F(e.b, s, l) IN <<a[1]*b, a[2]*b, a[3]*b>>)
    [] e.k = "vec" -> <<F(e.a, s, l), F(e.b, s, l), F(e.c, s, l)>>
    [] e.k = "promote" -> (LET a == F(e.a, s, l) IN <<a, a, a>>)
    [] e.k = "vcond" -> IF Q(e.q, s, l) THEN V(e.a, s, l) ELSE V(e.b, s, l)
    [] e.k \in {"xform", "vxform"} -> Row(V(e.a, s, l), IF e.k = "xform" THEN 1 ELSE 0, Mx(e.m, s, l))
    [] e.k = "nxform" -> (LET a == V(e.a, s, l) IN <<a[1] - F(e.b, s, l) * a[2], a[2], a[3]>>)   \* by the inverse transpose of a shear and a translation
    [] e.k = "vofc" -> C(e.a, s, l)
C(e, s, l) ==
  CASE e.k = "var" -> s[e.v]
    [] e.k \in {"cadd", "csub", "cmul", "cmin", "cmax"} -> (LET a == C(e.a, s, l) b == C(e.b, s, l) IN [i \in 1..3 |-> CASE e.k = "cadd" -> a[i]+b[i] [] e.k = "csub" -> a[i]-b[i] [] e.k = "cmul" -> a[i]*b[i] [] e.k = "cmin" -> Min(a[i], b[i]) [] OTHER -> Max(a[i], b[i])])
    [] e.k = "col" -> <<F(e.a, s, l), F(e.b, s, l), F(e.c, s, l)>>
    [] e.k = "cprom" -> (LET a == F(e.a, s, l) IN <<a, a, a>>)
    [] e.k = "cclamp" -> (LET a == C(e.a, s, l) K(x) == Max(e.b, Min(e.c, x)) IN <<K(a[1]), K(a[2]), K(a[3])>>)
    [] e.k = "cspl" -> C(e.a[e.i + 2], s, l)
    [] e.k = "cneg" -> (LET a == C(e.a, s, l) IN <<-a[1], -a[2], -a[3]>>)
    [] e.k = "cmulf" -> (LET a == C(e.a, s, l) b == F(e.b, s, l) IN <<a[1]*b, a[2]*b, a[3]*b>>)
    [] e.k = "cmix" -> (LET a == C(e.a, s, l) b == C(e.b, s, l) IN [i \in 1..3 |-> a[i]*(1-e.i) + b[i]*e.i])
    [] e.k = "ccond" -> IF Q(e.q, s, l) THEN C(e.a, s, l) ELSE C(e.b, s, l)
    [] e.k = "cofv" -> V(e.a, s, l)
    [] e.k = "cidx" -> s.k[(F(e.a, s, l) % AN) + 1]
Mx(e, s, l) == CASE e.k = "var" -> s[e.v] [] e.k = "mmul" -> Mul4(Mx(e.b, s, l), Mx(e.a, s, l))   \* a*b is the transformation b followed by a
    [] e.k = "mtrans" -> Mul4(Mx(e.a, s, l), Tr([e.v EXCEPT ![2] = F(e.b, s, l)])) [] e.k = "mscale" -> Mul4(Mx(e.a, s, l), Sc([e.v EXCEPT ![2] = F(e.b, s, l)]))   \* appended to the matrix
    [] e.k = "mrot" -> Mul4(Mx(e.a, s, l), Rot(e.i + 1, M7(F(e.b, s, l))))
    [] e.k = "minv" -> (LET b == F(e.b, s, l) IN Mul4(<<<<1, -b, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<-F(e.c, s, l), F(e.c, s, l) * b - 1, -2, 1>>>>, Mx(e.a, s, l)))   \* divided by a shear and translation
    [] e.k = "mcond" -> (IF Q(e.q, s, l) THEN Mx(e.a, s, l) ELSE Mx(e.b, s, l)) [] e.k = "mdiag" -> Diag(F(e.a, s, l)) [] OTHER -> Lit(e.a, F(e.b, s, l))
S(e, s, l) == CASE e.k = "var" -> s[e.v] [] e.k = "scond" -> (IF Q(e.q, s, l) THEN s[e.a.v] ELSE e.b.a) [] e.k = "str" -> e.a [] e.k = "cat3" -> (s[e.a.v] \o s[e.b.v]) \o e.c.a [] e.k = "fmt" -> (s[e.a.v] \o "<") \o (ToString(M7(F(e.b, s, l))) \o ">") [] OTHER -> s[e.a.v] \o e.b.a
Q(q, s, l) == CASE q.k = "cmp" -> Rel(q.o, F(q.a, s, l), F(q.b, s, l)) [] q.k = "veq" -> Rel(q.o, V(q.a, s, l), V(q.b, s, l)) [] q.k = "seq" -> Rel(q.o, S(q.a, s, l), S(q.b, s, l))
    [] q.k = "match" -> (\E i \in 1..(1 + Len(s[q.a.v]) - Len(q.p)) : SubSeq(s[q.a.v], i, i + Len(q.p) - 1) = q.p) # (q.b = 1)
    [] q.k = "and" -> Q(q.a, s, l) /\ Q(q.b, s, l) [] OTHER -> Q(q.a, s, l) \/ Q(q.b, s, l)

(* ---------- statements ---------- *)
NoGuard == [k |-> "none"]
Guards(n) == Pick({NoGuard, [k |-> "some"]})
MkGuard(g, n) == IF g.k = "none" THEN g ELSE GenCond(1, Scope, FALSE, n)
Runs(g, s, l) == g.k = "none" \/ Q(g, s, l)
Each(g, Upd(_, _)) == env' = TLCEval([l \in Lanes |-> IF Runs(g, env[l], l) THEN TLCEval(Upd(env[l], l)) ELSE env[l]])
Can == ~done /\ N < MaxStmts /\ Len(funs) = 2
Add(st) == prog' = Append(prog, st) /\ UNCHANGED <<funs, done>>
AsgF == \E v \in Pick(FV), g \in Guards(N) : \E e \in {GenF(Deep, Scope, FALSE, N)}, q \in {MkGuard(g, N)} : Can /\ Add([t |-> "f", v |-> v, e |-> e, g |-> q]) /\ Each(q, LAMBDA s, l : [s EXCEPT ![v] = M7(F(e, s, l))])
AsgU == \E v \in Pick(FU) : \E e \in {GenF(Deep, Scope, TRUE, N)} : Can /\ Add([t |-> "f", v |-> v, e |-> e, g |-> NoGuard]) /\ Each(NoGuard, LAMBDA s, l : [s EXCEPT ![v] = M7(F(e, s, l))])
AsgV == \E v \in Pick(VV), g \in Guards(N) : \E e \in {GenV(Deep, Scope, N)}, q \in {MkGuard(g, N)} : Can /\ "v" \in Types /\ Add([t |-> "v", v |-> v, e |-> e, g |-> q]) /\ Each(q, LAMBDA s, l : [s EXCEPT ![v] = M7v(V(e, s, l))])
AsgC == \E v \in Pick(CV), g \in Guards(N) : \E e \in {GenC(Deep, Scope, N)}, q \in {MkGuard(g, N)} : Can /\ "c" \in Types /\ Add([t |-> "c", v |-> v, e |-> e, g |-> q]) /\ Each(q, LAMBDA s, l : [s EXCEPT ![v] = M7v(C(e, s, l))])
Small(A) == \A i, j \in 1..4 : Abs(A[i][j]) <= 8
AsgM == \E v \in Pick(MV), g \in Guards(N) : \E e \in {GenM(2, Scope, N, TRUE)}, q \in {MkGuard(g, N)} : Can /\ "m" \in Types /\ (\A l \in Lanes : Small(Mx(e, env[l], l)))
        /\ Add([t |-> "m", v |-> v, e |-> e, g |-> q]) /\ Each(q, LAMBDA s, l : [s EXCEPT ![v] = Mx(e, s, l)])
AsgS == \E v \in Pick(SV) : \E e \in {GenS(Scope, N)} : Can /\ "s" \in Types /\ (\A l \in Lanes : Len(S(e, env[l], l)) <= 8) /\ Add([t |-> "s", v |-> v, e |-> e, g |-> NoGuard]) /\ Each(NoGuard, LAMBDA s, l : [s EXCEPT ![v] = S(e, s, l)])
ArrF == \E g \in Guards(N) : \E i \in {GenF(1, Scope, FALSE, N)} : \E e \in {GenF(Deep, Scope, FALSE, N)}, q \in {MkGuard(g, N)} : Can /\ "v" \in Types /\ Add([t |-> "r", i |-> i, e |-> e, g |-> q])
        /\ Each(q, LAMBDA s, l : [s EXCEPT !.r[(F(i, s, l) % AN) + 1] = M7(F(e, s, l))])
ArrU == \E i \in {GenF(1, Scope, TRUE, N)}, e \in {GenF(Deep, Scope, TRUE, N)} : Can /\ "v" \in Types /\ Add([t |-> "h", i |-> i, e |-> e, g |-> NoGuard])
        /\ Each(NoGuard, LAMBDA s, l : [s EXCEPT !.h[(F(i, s, l) % AN) + 1] = M7(F(e, s, l))])
ArrC == \E g \in Guards(N) : \E i \in {GenF(1, Scope, FALSE, N)} : \E e \in {GenC(Deep, Scope, N)}, q \in {MkGuard(g, N)} : Can /\ "c" \in Types /\ Add([t |-> "k", i |-> i, e |-> e, g |-> q])
        /\ Each(q, LAMBDA s, l : [s EXCEPT !.k[(F(i, s, l) % AN) + 1] = M7v(C(e, s, l))])
(* component assignment through output parameters of built-in functions *)
SetComp == \E v \in Pick(IF "c" \in Types THEN VV \cup CV ELSE VV), i \in Pick(0..2), g \in Guards(N) : \E e \in {GenF(1, Scope, FALSE, N)}, q \in {MkGuard(g, N)} : Can /\ "v" \in Types /\ Add([t |-> "set", v |-> v, i |-> i, e |-> e, g |-> q])
        /\ Each(q, LAMBDA s, l : [s EXCEPT ![v][i + 1] = M7(F(e, s, l))])
(* user functions: float fn(float a; vector b; output float o) { float t = e1; o = e2; return e3; } *)
NewFun == \E o \in Pick({FALSE, TRUE}), w \in Pick({"v", "f"}), nest \in Pick({FALSE, TRUE}) : LET fn == [pn |-> <<"pa", "pb", "po">>, pt |-> <<"f", IF "v" \in Types THEN w ELSE "f", "f">>] sc == FunScope(fn) IN
     \E t \in {GenF(1, [sc EXCEPT !.f = @ \ {"t"}], FALSE, N)}, e2 \in {GenF(2, sc, FALSE, N)}, e3 \in {GenF(2, sc, FALSE, N)}, q \in {IF o THEN GenCond(0, sc, FALSE, N) ELSE NoGuard} :
     /\ ~done /\ N = 0 /\ Len(funs) < 2 /\ funs' = Append(funs, [pt |-> fn.pt, t |-> t, e2 |-> e2, e3 |-> e3, q |-> q, nest |-> nest /\ Len(funs) = 1 /\ funs[1].pt = fn.pt]) /\ UNCHANGED <<prog, env, done>>
(* v = M7(fn(e, w, o)): e and w expressions, o a variable receiving the output; o and v differ and e and w do not read o (arguments are passed by reference). *)
(* The second function may return what the first does, handing its parameters on. *)
Body(fn, b, l) == LET b1 == TLCEval([b EXCEPT !.t = M7(F(fn.t, b, l))]) IN TLCEval(IF Runs(fn.q, b1, l) THEN [b1 EXCEPT !.po = M7(F(fn.e2, b1, l))] ELSE b1)
Result(fn, b, l) == LET b2 == Body(fn, b, l) r == F(fn.e3, b2, l) IN
     IF ~fn.nest THEN [po |-> b2.po, r |-> r]
     ELSE LET b3 == Body(funs[1], [b2 EXCEPT !.pa = r, !.t = 0], l) IN [po |-> b3.po, r |-> F(funs[1].e3, b3, l)]
ArgB(f, sc, n) == IF Len(funs) >= f /\ funs[f].pt[2] = "v" THEN GenV(R(0..1), sc, n) ELSE GenF(R(0..1), sc, FALSE, n)
Call == \E f \in Pick(1..(IF Len(funs) = 0 THEN 1 ELSE Len(funs))) : \E v \in Pick(FV), o \in Pick(FV), g \in Guards(N) :
     \E e \in {GenF(1, [Scope EXCEPT !.f = @ \ {o}], FALSE, N)}, w \in {ArgB(f, [Scope EXCEPT !.f = @ \ {o}], N)}, q \in {MkGuard(g, N)} :
     /\ Can /\ Len(funs) >= f /\ v # o /\ Add([t |-> "call", v |-> v, o |-> o, w |-> w, e |-> e, f |-> f, g |-> q])
     /\ Each(q, LAMBDA s, l : LET b2 == Result(funs[f], [pa |-> F(e, s, l), pb |-> IF funs[f].pt[2] = "v" THEN V(w, s, l) ELSE F(w, s, l), po |-> s[o], t |-> 0], l)
           IN [s EXCEPT ![o] = b2.po, ![v] = M7(b2.r)])
(* the same with an array element as the output argument *)
CallA == \E f \in Pick(1..(IF Len(funs) = 0 THEN 1 ELSE Len(funs))) : \E v \in Pick(FV), g \in Guards(N) :
     \E e \in {GenF(1, [Scope EXCEPT !.arr = FALSE], FALSE, N)}, w \in {ArgB(f, [Scope EXCEPT !.arr = FALSE], N)}, i \in {LeafF([Scope EXCEPT !.f = @ \ {v}], FALSE, N)}, q \in {MkGuard(g, N)} :
     /\ Can /\ "v" \in Types /\ Len(funs) >= f /\ Add([t |-> "calla", v |-> v, i |-> i, w |-> w, e |-> e, f |-> f, g |-> q])
     /\ Each(q, LAMBDA s, l : LET n == (F(i, s, l) % AN) + 1 b2 == Result(funs[f], [pa |-> F(e, s, l), pb |-> IF funs[f].pt[2] = "v" THEN V(w, s, l) ELSE F(w, s, l), po |-> s.r[n], t |-> 0], l)
           IN [s EXCEPT !.r[n] = b2.po, ![v] = M7(b2.r)])

Start == [f0 |-> 0, f1 |-> 1, f2 |-> 2, g0 |-> 3, g1 |-> 1, v0 |-> <<1, 0, 2>>, v1 |-> <<0, 3, 1>>, c0 |-> <<1, 1, 0>>, c1 |-> <<2, 0, 1>>, m0 |-> Diag(1), s0 |-> "a", s1 |-> "", r |-> <<1, 2, 3, 4>>, h |-> <<5, 0, 2, 6>>, k |-> [i \in 1..4 |-> <<0, i, 1>>]]
Init == prog = <<>> /\ env = [l \in Lanes |-> Start] /\ funs = <<>> /\ done = FALSE
Finish == ~done /\ N >= MaxStmts /\ Len(funs) = 2 /\ done' = TRUE /\ UNCHANGED <<prog, env, funs>>
Next == NewFun \/ AsgF \/ AsgF \/ AsgU \/ AsgV \/ AsgC \/ AsgM \/ AsgS \/ ArrF \/ ArrC \/ ArrU \/ SetComp \/ Call \/ CallA \/ Finish

UniformIsUniform == \A l, m \in Lanes : \A v \in FU \cup SV \cup {"h"} : env[l][v] = env[m][v]
Affine == \A l \in Lanes : Aff(env[l].m0)
InRange == \A l \in Lanes : (\A v \in FV \cup FU : env[l][v] \in 0..6) /\ (\A v \in VV \cup CV : \A i \in 1..3 : env[l][v][i] \in 0..6) /\ (\A i \in 1..AN : env[l].r[i] \in 0..6)
Emit == done => PrintT("@@" \o ToJson([prog |-> prog, funs |-> funs, env |-> [i \in 1..((LX+1)*(LY+1)) |-> env[<<(i-1) % (LX+1), (i-1) \div (LX+1)>>]]]))
=======================================================================
