----------------------------- MODULE Primitives -----------------------------
(* Parametric primitives: the points of a primitive, and the values of its variables   *)
(* there, as functions of the surface parameters (u, v).  Evaluated exactly (in        *)
(* rational numbers) on the lattice of multiples of 1/L of every piece.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L, Kinds, MaxPrims, Rand
VARIABLES prims, phase, basis, tex
vars == <<prims, phase, basis, tex>>
Pick(S) == IF Rand /\ Len(prims) >= 0 THEN {RandomElement(S)} ELSE S
One(S) == CHOOSE x \in Pick(S) : TRUE
Rnd(n, S) == TLCEval([k \in 1..n |-> One(S)])
Range(f) == {f[k] : k \in DOMAIN f}

(* ---- rational arithmetic, normalised *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Q(a, b) == LET g == Gcd(Abs(a), Abs(b)) s == IF b < 0 THEN -1 ELSE 1 IN IF a = 0 THEN <<0, 1>> ELSE <<s * (a \div g), s * (b \div g)>>
Add(x, y) == LET g == Gcd(x[2], y[2]) IN Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
Mul(x, y) == LET g == Gcd(Abs(x[1]), y[2]) h == Gcd(Abs(y[1]), x[2]) IN Q((x[1] \div (IF g = 0 THEN 1 ELSE g)) * (y[1] \div (IF h = 0 THEN 1 ELSE h)), (x[2] \div (IF h = 0 THEN 1 ELSE h)) * (y[2] \div (IF g = 0 THEN 1 ELSE g)))
Div(x, y) == Mul(x, IF y[1] < 0 THEN <<-y[2], -y[1]>> ELSE <<y[2], y[1]>>)
Neg(x) == <<-x[1], x[2]>>
I(n) == <<n, 1>>
RECURSIVE SumQ(_, _)
SumQ(f, n) == IF n = 0 THEN I(0) ELSE Add(f[n], SumQ(f, n - 1))

(* ---- cubic bases: the weight of control value c (1..4) at i/L *)
Bases == {"bezier", "b-spline", "catmull-rom", "hermite", "power"}
Step(b) == CASE b = "bezier" -> 3 [] b = "hermite" -> 2 [] b = "power" -> 4 [] OTHER -> 1
Cubic(b, i) ==
  LET i2 == i * i i3 == i * i * i m == L - i L2 == L * L L3 == L * L * L IN
  CASE b = "bezier" -> <<Q(m * m * m, L3), Q(3 * i * m * m, L3), Q(3 * i2 * m, L3), Q(i3, L3)>>
  [] b = "b-spline" -> <<Q(m * m * m, 6 * L3), Q(3 * i3 - 6 * i2 * L + 4 * L3, 6 * L3), Q(-3 * i3 + 3 * i2 * L + 3 * i * L2 + L3, 6 * L3), Q(i3, 6 * L3)>>
  [] b = "catmull-rom" -> <<Q(-i3 + 2 * i2 * L - i * L2, 2 * L3), Q(3 * i3 - 5 * i2 * L + 2 * L3, 2 * L3), Q(-3 * i3 + 4 * i2 * L + i * L2, 2 * L3), Q(i3 - i2 * L, 2 * L3)>>
  [] b = "hermite" -> <<Q(2 * i3 - 3 * i2 * L + L3, L3), Q(i3 - 2 * i2 * L + i * L2, L3), Q(-2 * i3 + 3 * i2 * L, L3), Q(i3 - i2 * L, L3)>>
  [] OTHER -> <<Q(i3, L3), Q(i2, L2), Q(i, L), I(1)>>
Linear(i) == <<Q(L - i, L), Q(i, L)>>

(* ---- shapes: np pieces; for a piece the corners (varying values) and controls (vertex values) with their weights *)
(* dir: n controls, periodic or not, cubic or linear: the pieces, the step and the number of varying values *)
Pieces(n, per, cub, st) == IF cub THEN IF per THEN n \div st ELSE (n - 4) \div st + 1 ELSE IF per THEN n ELSE n - 1
Corners(n, per, cub, st) == Pieces(n, per, cub, st) + (IF per THEN 0 ELSE 1)
Weights(cub, b, i) == IF cub THEN Cubic(b, i) ELSE Linear(i)
Control(a, k, n, cub, st) == (a * (IF cub THEN st ELSE 1) + k) % n        \* index (from 0) of control k (from 0) of piece a (from 0)
Corner(a, k, m) == (a + k) % m

(* ---- variables of a primitive: name, class, components, values *)
Classes == {"constant", "uniform", "varying", "vertex"}
VarSpecs == {[name |-> "f1", n |-> 1], [name |-> "f2", n |-> 1], [name |-> "aa", n |-> 2], [name |-> "kk", n |-> 3], [name |-> "Cs", n |-> 3], [name |-> "st", n |-> 2], [name |-> "s", n |-> 1], [name |-> "t", n |-> 1], [name |-> "pp", n |-> 3]}
ClassOf(n) == IF n = "st" THEN {"varying"} ELSE IF n \in {"s", "t"} THEN {"varying", "vertex"} ELSE IF n = "aa" THEN Classes \ {"vertex"} ELSE Classes
Count(c, sh) == CASE c = "constant" -> 1 [] c = "uniform" -> sh.nuni [] c = "varying" -> sh.nvar [] OTHER -> sh.nver
MakeVar(name, n, sh) == LET c == One(ClassOf(name)) IN [name |-> name, c |-> c, n |-> n, val |-> Rnd(n * Count(c, sh), 0..9)]
Val(v, idx, comp) == v.val[idx * v.n + comp]     \* idx from 0, comp from 1

(* a shape: [k, args, nuni, nvar, nver, pu, pv (pieces), cn(a,b) etc. given by the constants cu, cv] *)
(* direction: [n, per, cub, b, st] *)
Dir(d) == Pieces(d.n, d.per, d.cub, d.st)
DCor(d) == Corners(d.n, d.per, d.cub, d.st)
(* NURBS direction d: order, n controls, knots; piece a (from 0) is the span from knot d.o + a *)
RECURSIVE BSpline(_, _, _, _, _)
BSpline(d, a, c, o, u) == IF o = 1 THEN I(IF c = d.o + a THEN 1 ELSE 0)
   ELSE LET t(k) == I(d.kn[k])
            l == IF d.kn[c + o - 1] = d.kn[c] THEN I(0) ELSE Mul(Div(Add(u, Neg(t(c))), Add(t(c + o - 1), Neg(t(c)))), BSpline(d, a, c, o - 1, u))
            r == IF d.kn[c + o] = d.kn[c + 1] THEN I(0) ELSE Mul(Div(Add(t(c + o), Neg(u)), Add(t(c + o), Neg(t(c + 1)))), BSpline(d, a, c + 1, o - 1, u))
        IN Add(l, r)
NuParam(d, a, i) == Q((d.kn[d.o + a] * (L - i)) + (d.kn[d.o + a + 1] * i), L)
NuRow(d, a, i) == TLCEval([c \in 1..d.n |-> BSpline(d, a, c, d.o, NuParam(d, a, i))])
NuTable(d) == TLCEval([a \in 1..(d.n - d.o + 1) |-> [i \in 1..(L + 1) |-> NuRow(d, a - 1, i - 1)]])
NuAt(v, sh, a, b, i, j, comp) == LET wu == sh.nu.tab[a + 1][i + 1] wv == sh.nv.tab[b + 1][j + 1] n == sh.nu.n m == sh.nv.n
   IN SumQ([k \in 1..(n * m) |-> IF wu[((k - 1) % n) + 1][1] = 0 \/ wv[(k - 1) \div n + 1][1] = 0 THEN I(0) ELSE Mul(Mul(wu[((k - 1) % n) + 1], wv[(k - 1) \div n + 1]), I(Val(v, k - 1, comp)))], n * m)
At(v, sh, a, b, i, j, comp) ==   \* the value of component comp of variable v at (i, j) of piece (a, b)
  LET du == sh.du dv == sh.dv IN
  CASE v.c = "constant" -> I(Val(v, 0, comp))
  [] v.c = "uniform" -> I(Val(v, b * Dir(du) + a, comp))
  [] v.c = "varying" -> LET wu == Linear(i) wv == Linear(j) w(k) == Mul(Mul(wu[((k - 1) % 2) + 1], wv[(k - 1) \div 2 + 1]), I(Val(v, Corner(b, (k - 1) \div 2, DCor(dv)) * DCor(du) + Corner(a, (k - 1) % 2, DCor(du)), comp)))
                        IN SumQ([k \in 1..4 |-> w(k)], 4)
  [] sh.k = "nupatch" -> NuAt(v, sh, a, b, i, j, comp)
  [] OTHER -> LET wu == Weights(du.cub, du.b, i) wv == Weights(dv.cub, dv.b, j) n == Len(wu) m == Len(wv)
                  w(k) == Mul(Mul(wu[((k - 1) % n) + 1], wv[(k - 1) \div n + 1]), I(Val(v, Control(b, (k - 1) \div n, dv.n, dv.cub, dv.st) * du.n + Control(a, (k - 1) % n, du.n, du.cub, du.st), comp)))
              IN SumQ([k \in 1..(n * m) |-> w(k)], n * m)
U(sh, a, i) == Q(a * L + i, Dir(sh.du) * L)
V(sh, b, j) == Q(b * L + j, Dir(sh.dv) * L)
Has(vs, n) == \E k \in DOMAIN vs : vs[k].name = n
Get(vs, n) == vs[CHOOSE k \in DOMAIN vs : vs[k].name = n]
(* s and t: the variables st, s, t of the primitive, or else the texture coordinates of the attribute state spread over (u, v) *)
TexAt(sh, a, b, i, j, comp) == LET u == U(sh, a, i) v == V(sh, b, j) mu == Add(I(1), Neg(u)) mv == Add(I(1), Neg(v)) c(k) == I(tex[2 * (k - 1) + comp]) IN
   Add(Add(Mul(Mul(mu, mv), c(1)), Mul(Mul(u, mv), c(2))), Add(Mul(Mul(mu, v), c(3)), Mul(Mul(u, v), c(4))))
ST(vs, sh, a, b, i, j, comp) == IF Has(vs, "st") THEN At(Get(vs, "st"), sh, a, b, i, j, comp) ELSE IF Has(vs, <<"s", "t">>[comp]) THEN At(Get(vs, <<"s", "t">>[comp]), sh, a, b, i, j, 1) ELSE TexAt(sh, a, b, i, j, comp)
Comps(vs, k, sh, a, b, i, j) == [q \in 1..vs[k].n |-> At(vs[k], sh, a, b, i, j, q)]
Point(vs, sh, a, b, i, j, P) == [corner |-> i \in {0, L} /\ j \in {0, L}, u |-> IF sh.k = "nupatch" THEN NuParam(sh.nu, a, i) ELSE U(sh, a, i), v |-> IF sh.k = "nupatch" THEN NuParam(sh.nv, b, j) ELSE V(sh, b, j), P |-> P, st |-> <<ST(vs, sh, a, b, i, j, 1), ST(vs, sh, a, b, i, j, 2)>>, vals |-> [k \in DOMAIN vs |-> Comps(vs, k, sh, a, b, i, j)]]
Lattice(vs, sh, PP(_, _, _, _)) ==
  LET nu == Dir(sh.du) nv == Dir(sh.dv) M == L + 1 IN
  [k \in 1..(nu * nv * M * M) |-> LET z == k - 1 i == z % M j == (z \div M) % M a == (z \div (M * M)) % nu b == z \div (M * M * nu) IN Point(vs, sh, a, b, i, j, PP(a, b, i, j))]

(* ---- primitives given by control points *)
RECURSIVE MakeVars(_, _)
MakeVars(S, sh) == IF S = {} THEN <<>> ELSE LET s == CHOOSE x \in S : TRUE IN Append(MakeVars(S \ {s}, sh), MakeVar(s.name, s.n, sh))
NoDup(S) == IF \E x \in S : x.name = "st" THEN {x \in S : x.name \notin {"s", "t"}} ELSE S      \* the texture coordinates are given in one way only
SomeVars == {s \in VarSpecs : One(0..2) = 0}
Shape(k, du, dv) == [k |-> k, du |-> du, dv |-> dv, nuni |-> Dir(du) * Dir(dv), nvar |-> DCor(du) * DCor(dv), nver |-> du.n * dv.n]
Spread(du, dv) == TLCEval([k \in 1..(3 * du.n * dv.n) |-> IF du.b = "power" \/ dv.b = "power" THEN One(-1..2) ELSE LET q == (k - 1) \div 3 IN IF (k - 1) % 3 = 0 THEN 3 * (q % du.n) + One(-1..1) ELSE IF (k - 1) % 3 = 1 THEN 3 * (q \div du.n) + One(-1..1) ELSE One(0..4)])
PDir(n, per, cub) == [n |-> n, per |-> per, cub |-> cub, b |-> "", st |-> 1]
Done(p) == prims' = Append(prims, p) /\ UNCHANGED <<phase, basis, tex>>
Controlled(sh) ==
  \E S \in {TLCEval(SomeVars)} : \E P \in {[name |-> "P", c |-> "vertex", n |-> 3, val |-> Spread(sh.du, sh.dv)]} : \E vs \in {TLCEval(MakeVars(NoDup(S), sh))} :
    Done([k |-> sh.k, sh |-> sh, P |-> P.val, vars |-> vs, basis |-> basis, tex |-> tex, pts |-> TLCEval(Lattice(vs, sh, LAMBDA a, b, i, j : <<"xyz", At(P, sh, a, b, i, j, 1), At(P, sh, a, b, i, j, 2), At(P, sh, a, b, i, j, 3)>>))])
CDir(n, per, d) == [n |-> n, per |-> per, cub |-> TRUE, b |-> basis[d].b, st |-> basis[d].st]
Sizes(per, st, b) == IF per THEN {n \in 4..9 : n % st = 0 /\ n >= st * 2 /\ b \in {"bezier", "b-spline", "catmull-rom"}} ELSE {4 + k * st : k \in 0..(IF st = 4 THEN 1 ELSE IF st = 3 THEN 1 ELSE 2)}
Bilinear == Controlled(Shape("bilinear", PDir(2, FALSE, FALSE), PDir(2, FALSE, FALSE)))
Bicubic == Controlled(Shape("bicubic", [CDir(4, FALSE, 1) EXCEPT !.st = 4], [CDir(4, FALSE, 2) EXCEPT !.st = 4]))
MeshL == \E pu \in Pick(BOOLEAN) : \E pv \in Pick(BOOLEAN) : \E nu \in Pick(IF pu THEN 3..4 ELSE 2..4) : \E nv \in Pick(IF pv THEN 3..4 ELSE 2..4) : Controlled(Shape("meshl", PDir(nu, pu, FALSE), PDir(nv, pv, FALSE)))
MeshC == \E pu \in Pick({p \in BOOLEAN : Sizes(p, basis[1].st, basis[1].b) # {}}) : \E pv \in Pick({p \in BOOLEAN : Sizes(p, basis[2].st, basis[2].b) # {}}) : \E nu \in Pick(Sizes(pu, basis[1].st, basis[1].b)) : \E nv \in Pick(Sizes(pv, basis[2].st, basis[2].b)) :
   Controlled(Shape("meshc", CDir(nu, pu, 1), CDir(nv, pv, 2)))

NuDir == CHOOSE d \in {[d0 EXCEPT !.tab = NuTable(d0)] : d0 \in {[n |-> o + x, o |-> o, tab |-> <<>>, x |-> x,
            kn |-> [k \in 1..(2 * o + x) |-> IF cl THEN (IF k <= o THEN 0 ELSE IF k > o + x THEN x + 1 ELSE k - o) + z ELSE k - 1 + z]] : o \in Pick(2..4), x \in Pick(0..2), cl \in Pick(BOOLEAN), z \in Pick({0, 0, -2, 1})}} : TRUE
NuPatch == \E du \in {TLCEval(NuDir)} : \E dv \in {TLCEval(NuDir)} : \E rat \in Pick(BOOLEAN) :
  \E sh \in {[k |-> "nupatch", du |-> PDir(du.x + 2, FALSE, FALSE), dv |-> PDir(dv.x + 2, FALSE, FALSE), nu |-> du, nv |-> dv, nuni |-> (du.x + 1) * (dv.x + 1), nvar |-> (du.x + 2) * (dv.x + 2), nver |-> du.n * dv.n]} :
  \E w \in {TLCEval([k \in 1..(du.n * dv.n) |-> IF rat THEN One(1..3) ELSE 1])} :
  \E pos \in {Spread(PDir(du.n, FALSE, FALSE), PDir(dv.n, FALSE, FALSE))} :
  \E P \in {[name |-> "Pw", c |-> "vertex", n |-> 4, val |-> TLCEval([k \in 1..(4 * du.n * dv.n) |-> LET q == (k - 1) \div 4 c == (k - 1) % 4 IN IF c = 3 THEN w[q + 1] ELSE pos[3 * q + c + 1] * w[q + 1]])]} :
  \E S \in {TLCEval(SomeVars)} : \E vs \in {TLCEval(IF rat THEN SelectSeq(MakeVars(NoDup(S), sh), LAMBDA v : v.c # "vertex") ELSE MakeVars(NoDup(S), sh))} :
    Done([k |-> "nupatch", sh |-> sh, P |-> IF rat THEN P.val ELSE pos, rat |-> rat, vars |-> vs, basis |-> basis, tex |-> tex,
          pts |-> TLCEval(Lattice(vs, sh, LAMBDA a, b, i, j : LET h == At(P, sh, a, b, i, j, 4) IN <<"xyz", Div(At(P, sh, a, b, i, j, 1), h), Div(At(P, sh, a, b, i, j, 2), h), Div(At(P, sh, a, b, i, j, 3), h)>>))])

(* ---- surfaces of revolution: the profile at v turned by the angle u * sweep.  A profile point is given as *)
(* <<"xyz", x, y, z>>, <<"sq", r squared, z>> or <<"arc", centre radius, radius, angle in degrees>>            *)
Four == PDir(2, FALSE, FALSE)
Between(a, b, j) == Q(a * (L - j) + b * j, L)
Revolve(k, args, sweep, prof(_)) ==
  \E sh \in {Shape(k, Four, Four)} : \E S \in {TLCEval(SomeVars)} : \E vs \in {TLCEval(MakeVars(NoDup(S), sh))} :
    Done([k |-> k, sh |-> sh, args |-> args, sweep |-> sweep, vars |-> vs, basis |-> basis, tex |-> tex, pts |-> TLCEval(Lattice(vs, sh, LAMBDA a, b, i, j : prof(j) \o <<Q(sweep * i, L)>>))])
Sweeps == {360, 360, 90, 180, 270, 120, -90, 40}
Sine2(deg) == CASE deg = -90 -> -2 [] deg = -30 -> -1 [] deg = 0 -> 0 [] deg = 30 -> 1 [] OTHER -> 2      \* twice the sine
Sphere == \E r \in Pick(1..4), t \in Pick(Sweeps), lo \in Pick({-90, -30, 0}), hi \in Pick({30, 90, 90}) : \E neg \in Pick({1, 1, -1}), over \in Pick({0, 0, 1}) :
   LET z(d) == r * Sine2(d) + (IF over = 1 THEN (IF d = 90 THEN 2 ELSE IF d = -90 THEN -2 ELSE 0) ELSE 0) IN
   Revolve("sphere", <<2 * r * neg, z(lo), z(hi)>>, t, LAMBDA j : <<"arc", I(0), I(neg * r), Between(neg * lo, neg * hi, j)>>)
Cylinder == \E r \in Pick(1..4), z0 \in Pick(-3..3), z1 \in Pick(-3..3), t \in Pick(Sweeps) : z0 # z1 /\ Revolve("cylinder", <<2 * r, 2 * z0, 2 * z1>>, t, LAMBDA j : <<"xyz", I(r), I(0), Between(z0, z1, j)>>)
Cone == \E r \in Pick(1..4), h \in Pick({-3, 1, 2, 5}), t \in Pick(Sweeps) : Revolve("cone", <<2 * h, 2 * r>>, t, LAMBDA j : <<"xyz", Between(r, 0, j), I(0), Between(0, h, j)>>)
Disk == \E r \in Pick(1..4), h \in Pick(-3..3), t \in Pick(Sweeps) : Revolve("disk", <<2 * h, 2 * r>>, t, LAMBDA j : <<"xyz", Between(r, 0, j), I(0), I(h)>>)
Torus == \E R \in Pick(2..4), r \in Pick(1..2), p0 \in Pick({0, 90, -90}), p1 \in Pick({180, 270, 360}), t \in Pick(Sweeps) : Revolve("torus", <<2 * R, 2 * r, 2 * p0, 2 * p1>>, t, LAMBDA j : <<"arc", I(R), I(r), Between(p0, p1, j)>>)
Parab == \E r \in Pick(1..4), z0 \in Pick(0..1), z1 \in Pick(2..5), t \in Pick(Sweeps) : Revolve("paraboloid", <<2 * r, 2 * z0, 2 * z1>>, t, LAMBDA j : <<"sq", Q((z0 * (L - j) + z1 * j) * r * r, L * z1), Between(z0, z1, j)>>)
Hyper == \E a \in {Rnd(6, -3..3)}, t \in Pick(Sweeps) : a[1] * a[1] + a[2] * a[2] > 0 /\ a[4] * a[4] + a[5] * a[5] > 0 /\ Abs(a[1] - a[4]) + Abs(a[2] - a[5]) + Abs(a[3] - a[6]) > 1 /\
   Revolve("hyperboloid", [k \in 1..6 |-> 2 * a[k]], t, LAMBDA j : <<"xyz", Between(a[1], a[4], j), Between(a[2], a[5], j), Between(a[3], a[6], j)>>)

(* ---- curves: ribbons along v; a sequence of numbers of controls, one value of a uniform variable per curve *)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
CurveAt(v, sh, c, b, j, comp) ==       \* at j of piece b of curve c
  LET d == sh.d[c] vo == Sum([k \in 1..Len(sh.d) |-> DCor(sh.d[k])], c - 1) no == Sum([k \in 1..Len(sh.d) |-> sh.d[k].n], c - 1) w == IF v.c = "varying" THEN Linear(j) ELSE Weights(d.cub, d.b, j) IN
  CASE v.c = "constant" -> I(Val(v, 0, comp)) [] v.c = "uniform" -> I(Val(v, c - 1, comp))
  [] v.c = "varying" -> SumQ([k \in 1..2 |-> Mul(w[k], I(Val(v, vo + Corner(b, k - 1, DCor(d)), comp)))], 2)
  [] OTHER -> SumQ([k \in 1..Len(w) |-> Mul(w[k], I(Val(v, no + Control(b, k - 1, d.n, d.cub, d.st), comp)))], Len(w))
(* six times the derivative of a segment at its start (j = 0) or its end (j = L), in units of the lattice *)
Tangent(P, sh, c, b, j, q) ==
  LET f == <<-11, 18, -9, 2>> IN SumQ([k \in 1..4 |-> Mul(I(IF j = 0 THEN f[k] ELSE -f[k]), CurveAt(P, sh, c, b, IF j = 0 THEN k - 1 ELSE L + 1 - k, q))], 4)
CurvePts(vs, P, w, sh) ==
  LET M == L + 1 np(c) == Dir(sh.d[c])
      one(c) == [k \in 1..(np(c) * M) |-> LET j == (k - 1) % M b == (k - 1) \div M IN
         [v |-> Q(b * L + j, np(c) * L), P |-> [q \in 1..3 |-> CurveAt(P, sh, c, b, j, q)], end |-> j \in {0, L} /\ \E q \in 1..2 : Tangent(P, sh, c, b, j, q) # I(0), w |-> CurveAt(w, sh, c, b, j, 1),
          st |-> [q \in 1..2 |-> IF Has(vs, "st") THEN CurveAt(Get(vs, "st"), sh, c, b, j, q) ELSE IF Has(vs, <<"s", "t">>[q]) THEN CurveAt(Get(vs, <<"s", "t">>[q]), sh, c, b, j, 1) ELSE I(-1000)],
          vals |-> [q \in DOMAIN vs |-> [x \in 1..vs[q].n |-> CurveAt(vs[q], sh, c, b, j, x)]]]]
  IN [c \in 1..Len(sh.d) |-> one(c)]
CurveSpread(d) == TLCEval([k \in 1..(3 * Sum([c \in DOMAIN d |-> d[c].n], Len(d))) |-> LET q == (k - 1) \div 3 IN IF (k - 1) % 3 = 0 THEN 3 * (q % 5) + One(-1..1) ELSE IF (k - 1) % 3 = 1 THEN One(-4..4) ELSE One(0..4)])
Widths == {[name |-> "constantwidth", c |-> "constant"], [name |-> "width", c |-> "varying"], [name |-> "", c |-> "constant"]}
Curves(cub) == \E per \in Pick(IF cub /\ basis[2].b \in {"hermite", "power"} THEN {FALSE} ELSE BOOLEAN) : \E nc \in Pick(1..3) :
  \E ns \in {Rnd(nc, IF cub THEN Sizes(per, basis[2].st, basis[2].b) ELSE IF per THEN 3..5 ELSE 2..5)} :
  \E d \in {TLCEval([c \in 1..nc |-> IF cub THEN CDir(ns[c], per, 2) ELSE PDir(ns[c], per, FALSE)])} :
  \E sh \in {TLCEval([k |-> "curves", d |-> d, cub |-> cub, per |-> per, nuni |-> nc, nvar |-> Sum([c \in 1..nc |-> DCor(d[c])], nc), nver |-> Sum(ns, nc)])} :
  \E w0 \in Pick(Widths) : \E w \in {[name |-> w0.name, c |-> w0.c, n |-> 1, val |-> IF w0.name = "" THEN <<1>> ELSE Rnd(Count(w0.c, sh), 1..3)]} :
  \E S \in {TLCEval(SomeVars)} : \E P \in {[name |-> "P", c |-> "vertex", n |-> 3, val |-> CurveSpread(d)]} : \E vs \in {TLCEval(MakeVars(NoDup(S), sh))} :
    Done([k |-> "curves", sh |-> sh, P |-> P.val, width |-> w, vars |-> vs, basis |-> basis, tex |-> tex, pts |-> TLCEval(CurvePts(vs, P, w, sh))])

(* ---- points *)
Points == \E n \in Pick(1..40) : \E sh \in {[k |-> "points", nuni |-> 1, nvar |-> n, nver |-> n]} :
  \E w0 \in Pick(Widths) : \E w \in {[name |-> w0.name, c |-> w0.c, n |-> 1, val |-> IF w0.name = "" THEN <<1>> ELSE Rnd(Count(w0.c, sh), 1..3)]} :
  \E S \in {TLCEval({x \in SomeVars : x.name \notin {"st", "s", "t"}})} : \E P \in {Rnd(3 * n, -20..20)} : \E vs \in {TLCEval(MakeVars(NoDup(S), sh))} :
    Done([k |-> "points", sh |-> sh, P |-> P, width |-> w, vars |-> vs, basis |-> basis, tex |-> tex,
          pts |-> TLCEval([q \in 1..n |-> [P |-> <<P[3 * q - 2], P[3 * q - 1], P[3 * q]>>, vals |-> [x \in DOMAIN vs |-> [y \in 1..vs[x].n |-> Val(vs[x], IF vs[x].c \in {"constant", "uniform"} THEN 0 ELSE q - 1, y)]]]])])

(* ---- polygons: planar faces with loops of vertices; a variable which is an affine function of the vertices' x and y *)
(* is that function on the whole face; a sample is inside a face if it is inside an odd number of its loops          *)
Ring == <<<<12, 0>>, <<8, 8>>, <<0, 12>>, <<-8, 8>>, <<-12, 0>>, <<-8, -8>>, <<0, -12>>, <<8, -8>>>>
RECURSIVE SubSeq2(_, _)
SubSeq2(S, k) == IF k > 8 THEN <<>> ELSE (IF k \in S THEN <<Ring[k]>> ELSE <<>>) \o SubSeq2(S, k + 1)
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Move(q, x, y, num, den) == [k \in 1..Len(q) |-> <<(q[k][1] * num) \div den + x, (q[k][2] * num) \div den + y>>]
Convex(q) == \A k \in 1..Len(q) : LET a == q[k] b == q[(k % Len(q)) + 1] c == q[((k + 1) % Len(q)) + 1] IN (b[1] - a[1]) * (c[2] - b[2]) - (b[2] - a[2]) * (c[1] - b[1]) > 0
SomeRing == TLCEval(SubSeq2({k \in 1..8 : One(0..1) = 0} \cup UNION {{a, a + 3, a + 5} : a \in Pick(1..2)}, 1))
Halfway(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
\* a vertex in the middle of an edge, and a start anywhere
MaybeMid(q) == IF One(0..3) # 0 THEN q ELSE CHOOSE x \in {LET p == SubSeq(q, 1, k) \o <<Halfway(q[k], q[(k % Len(q)) + 1])>> \o SubSeq(q, k + 1, Len(q)) IN SubSeq(p, r, Len(p)) \o SubSeq(p, 1, r - 1) : k \in Pick(1..Len(q)), r \in Pick(1..Len(q))} : TRUE
MaybeRev(q) == IF One(BOOLEAN) THEN Rev(q) ELSE q
Star == <<<<12, 0>>, <<4, 4>>, <<0, 12>>, <<-4, 4>>, <<-12, 0>>, <<-4, -4>>, <<0, -12>>, <<4, -4>>>>
Ell == <<<<-12, -10>>, <<12, -10>>, <<12, -4>>, <<-4, -4>>, <<-4, 10>>, <<-12, 10>>>>
Comb == <<<<-12, -10>>, <<12, -10>>, <<12, 10>>, <<6, 10>>, <<6, -4>>, <<2, -4>>, <<2, 8>>, <<-3, 8>>, <<-3, -4>>, <<-12, 10>>>>
Holes == <<Move(Ring, -5, 0, 1, 4), Move(<<<<8, 0>>, <<-8, 8>>, <<-8, -8>>>>, 5, 1, 1, 4), Move(Ring, 0, -6, 1, 6)>>
\* faces as sequences of loops of points
ConvexFace == <<MaybeRev(TLCEval(MaybeMid(SomeRing)))>>
GeneralFace == CASE One(0..4) = 0 -> <<MaybeRev(Star)>> [] One(0..3) = 0 -> <<MaybeRev(Ell)>> [] One(0..2) = 0 -> <<MaybeRev(Comb)>>
               [] OTHER -> LET h == {k \in 1..3 : One(0..1) = 0} r == Ring IN <<MaybeRev(r)>> \o (IF 1 \in h THEN <<MaybeRev(Holes[1])>> ELSE <<>>) \o (IF 2 \in h THEN <<MaybeRev(Holes[2])>> ELSE <<>>) \o (IF 3 \in h THEN <<MaybeRev(Holes[3])>> ELSE <<>>)
Place(fc, x, y) == [l \in DOMAIN fc |-> Move(fc[l], x, y, 1, 1)]
SplitRing(q) == LET n == Len(q) IN IF n < 5 THEN <<<<q>>>> ELSE <<<<SubSeq(q, 1, 3)>>, <<<<q[1]>> \o SubSeq(q, 3, n)>>>>     \* two faces which share an edge
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Index(_, _)
Index(pts, p) == IF pts = <<>> THEN 0 ELSE IF Head(pts) = p THEN 1 ELSE LET r == Index(Tail(pts), p) IN IF r = 0 THEN 0 ELSE r + 1
RECURSIVE Distinct(_, _)
Distinct(in, out) == IF in = <<>> THEN out ELSE Distinct(Tail(in), IF Index(out, Head(in)) = 0 THEN Append(out, Head(in)) ELSE out)
Aff(c, p) == c[1] * p[1] + c[2] * p[2] + c[3]
FClasses == {"constant", "uniform", "varying", "vertex", "facevarying"}
\* coef[f]: for face f the coefficients of every component
Coef(c, z) == IF c \in {"constant", "uniform"} THEN <<0, 0, z % 10>> ELSE <<(z % 3) - 1, ((z \div 3) % 4) - 1, (z \div 12) % 10>>
MakeAff(name, n, nf) == CHOOSE v \in {[name |-> name, c |-> c, n |-> n, coef |-> [f \in 1..nf |-> [q \in 1..n |-> Coef(c, r[IF c \in {"uniform", "facevarying"} THEN f ELSE 1][q])]]] :
     c \in Pick(IF name \in {"st", "s", "t", "aa"} THEN {"varying", "facevarying"} ELSE FClasses), r \in {TLCEval([f \in 1..nf |-> Rnd(n, 1..1000)])}} : TRUE
RECURSIVE MakeAffs(_, _)
MakeAffs(S, nf) == IF S = {} THEN <<>> ELSE LET s == CHOOSE x \in S : TRUE IN Append(MakeAffs(S \ {s}, nf), MakeAff(s.name, s.n, nf))
AffVals(v, faces, verts) ==
  CASE v.c = "constant" -> [q \in 1..v.n |-> v.coef[1][q][3]]
  [] v.c = "uniform" -> Flat([f \in 1..Len(faces) |-> [q \in 1..v.n |-> v.coef[f][q][3]]])
  [] v.c = "facevarying" -> Flat([f \in 1..Len(faces) |-> LET ps == Flat(faces[f]) IN Flat([k \in 1..Len(ps) |-> [q \in 1..v.n |-> Aff(v.coef[f][q], ps[k])]])])
  [] OTHER -> Flat([k \in 1..Len(verts) |-> [q \in 1..v.n |-> Aff(v.coef[1][q], verts[k])]])
\* a sample is at <<x, y>> / 2 with x and y odd; 1 inside, 0 outside, 2 on an edge
LoopAt(lp, x, y) ==
  LET n == Len(lp) e(k) == <<lp[k], lp[(k % n) + 1]>>
      cr(k) == LET a == e(k)[1] b == e(k)[2] IN (b[1] - a[1]) * (y - 2 * a[2]) - (b[2] - a[2]) * (x - 2 * a[1])
      on == \E k \in 1..n : cr(k) = 0 /\ LET a == e(k)[1] b == e(k)[2] IN x >= 2 * (IF a[1] < b[1] THEN a[1] ELSE b[1]) /\ x <= 2 * (IF a[1] > b[1] THEN a[1] ELSE b[1]) /\ y >= 2 * (IF a[2] < b[2] THEN a[2] ELSE b[2]) /\ y <= 2 * (IF a[2] > b[2] THEN a[2] ELSE b[2])
      up == Cardinality({k \in 1..n : 2 * e(k)[1][2] < y /\ 2 * e(k)[2][2] > y /\ cr(k) > 0})
      dn == Cardinality({k \in 1..n : 2 * e(k)[1][2] > y /\ 2 * e(k)[2][2] < y /\ cr(k) < 0})
  IN IF on THEN 2 ELSE (up + dn) % 2
FaceAt(fc, x, y) == LET r == [l \in DOMAIN fc |-> LoopAt(fc[l], x, y)] IN IF 2 \in Range(r) THEN 2 ELSE Sum(r, Len(r)) % 2
SampleAt(faces, x, y) == LET r == [f \in DOMAIN faces |-> FaceAt(faces[f], x, y)] IN IF 1 \in Range(r) THEN 1 ELSE IF 2 \in Range(r) THEN 2 ELSE 0
Half == 16
Polys(k) ==
  \E faces \in {TLCEval(CASE k = "polygon" -> <<ConvexFace>> [] k = "gpolygon" -> <<GeneralFace>>
        [] k = "ppolys" -> (IF One(BOOLEAN) THEN SplitRing(SomeRing) ELSE <<Place(ConvexFace, 0, 0), Place(<<Move(SomeRing, 0, 0, 1, 4)>>, 12, 12)>>)
        [] OTHER -> <<GeneralFace, <<Move(SomeRing, 12, 12, 1, 4)>>>>)} :
  \E verts \in {TLCEval(IF k \in {"polygon", "gpolygon"} THEN Flat(faces[1]) ELSE Distinct(Flat([f \in 1..Len(faces) |-> Flat(faces[f])]), <<>>))} :
  \E z \in {<<One({0, 0, 1}), One({0, 0, -1}), One(-2..2)>>} : \E S \in {TLCEval(SomeVars)} : \E vs \in {TLCEval(MakeAffs(NoDup(S), Len(faces)))} :
    Done([k |-> k, faces |-> faces, verts |-> verts, z |-> z, vars |-> [q \in DOMAIN vs |-> [name |-> vs[q].name, c |-> vs[q].c, n |-> vs[q].n, coef |-> vs[q].coef, val |-> AffVals(vs[q], faces, verts)]], basis |-> basis, tex |-> tex,
          index |-> [f \in 1..Len(faces) |-> [l \in 1..Len(faces[f]) |-> [q \in 1..Len(faces[f][l]) |-> Index(verts, faces[f][l][q]) - 1]]],
          cover |-> TLCEval([r \in 1..(2 * Half) |-> [c \in 1..(2 * Half) |-> SampleAt(faces, 2 * c - 1 - 2 * Half, 2 * r - 1 - 2 * Half)]])])

SetBasis == phase = "in" /\ \E b1 \in Pick(Bases) : \E b2 \in Pick(Bases) : basis' = <<[b |-> b1, st |-> Step(b1)], [b |-> b2, st |-> Step(b2)]>> /\ phase' = "prim" /\ UNCHANGED <<prims, tex>>
SetTex == phase = "in" /\ \E t \in {Rnd(8, -2..3)} : tex' = t /\ UNCHANGED <<prims, phase, basis>>
Prim == phase \in {"in", "prim"} /\ Len(prims) < MaxPrims /\ \E k \in Pick(Kinds) :
  CASE k = "bilinear" -> Bilinear [] k = "bicubic" -> Bicubic [] k = "meshl" -> MeshL [] k = "meshc" -> MeshC [] k = "nupatch" -> NuPatch [] k = "sphere" -> Sphere [] k = "cylinder" -> Cylinder
  [] k = "cone" -> Cone [] k = "disk" -> Disk [] k = "torus" -> Torus [] k = "paraboloid" -> Parab [] k = "hyperboloid" -> Hyper
  [] k = "curvesl" -> Curves(FALSE) [] k = "curvesc" -> Curves(TRUE) [] k = "points" -> Points [] OTHER -> Polys(k)
Again == phase = "prim" /\ prims # <<>> /\ phase' = "in" /\ UNCHANGED <<prims, basis, tex>>
Finish == Len(prims) = MaxPrims /\ phase # "done" /\ phase' = "done" /\ UNCHANGED <<prims, basis, tex>>
Init == prims = <<>> /\ phase = "in" /\ basis = <<[b |-> "bezier", st |-> 3], [b |-> "bezier", st |-> 3]>> /\ tex = <<0, 0, 1, 0, 0, 1, 1, 1>>
Next == SetBasis \/ SetTex \/ Prim \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- the properties of the evaluation itself *)
Partition == \A b \in Bases \ {"hermite", "power"} : \A i \in 0..L : SumQ(Cubic(b, i), 4) = I(1)
(* pieces meet: a cubic basis stepped by its step is continuous: the end of a piece is the beginning of the next *)
Meet == \A b \in {"b-spline", "catmull-rom"} : LET e == Cubic(b, L) s == Cubic(b, 0) IN e[1] = I(0) /\ s[4] = I(0) /\ e[2] = s[1] /\ e[3] = s[2] /\ e[4] = s[3]
Emit == IF phase = "done" THEN PrintT("@@" \o ToJson([prims |-> prims])) ELSE TRUE
=============================================================================
