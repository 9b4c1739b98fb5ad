-------------------------------- MODULE RiApi --------------------------------
(* The C interface: programs which open several contexts, switch between them, and  *)
(* make calls whose array lengths are implied by the other arguments, by the Basis  *)
(* in force, and by the declarations of the context.  Each accepted call becomes    *)
(* exactly one request with exactly its values in the stream of the context that    *)
(* is current; a call that is illegal where it is made, or which names a handle     *)
(* that is not valid, becomes nothing and changes nothing.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxLen, NCtx, Rand
VARIABLES cur,        \* the current context, 0: none
          ctx,        \* context -> its state
          opt,        \* output format for the contexts begun next
          nh,         \* handles issued so far (by any context)
          log, done
vars == <<cur, ctx, opt, nh, log, done>>
Pick(S) == IF Rand /\ Len(log) >= 0 THEN {RandomElement(S)} ELSE S

Blocks == {"Frame", "World", "Attribute", "Transform", "Solid", "Object", "Motion", "Archive"}
Outer == {"BeginEnd", "Frame", "Archive"}
Everywhere == {"BeginEnd", "Frame", "World", "Attribute", "Transform", "Solid", "Object", "Motion", "Archive"}
InWorld == {"World", "Attribute", "Transform", "Solid", "Object", "Motion", "Archive"}
NoMotion == InWorld \ {"Motion"}
Opens == [Frame |-> {"BeginEnd", "Archive"}, World |-> {"BeginEnd", "Frame", "Archive"}, Attribute |-> NoMotion, Transform |-> Everywhere \ {"Motion"}, Solid |-> NoMotion,
          Object |-> (Everywhere \ {"Motion", "Object"}), Motion |-> Everywhere \ {"Motion"}, Archive |-> Everywhere]
KeepsBasis == {"Transform"}
HandleScope == {"Frame", "World"}

(* arguments: type, value as text, whether the request has it (r) or derives it *)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE ToString(q[1]) \o (IF Len(q) = 1 THEN "" ELSE "," \o Join(Tail(q)))
RECURSIVE JoinS(_)
JoinS(q) == IF q = <<>> THEN "" ELSE q[1] \o (IF Len(q) = 1 THEN "" ELSE "," \o JoinS(Tail(q)))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Max(q) == CHOOSE m \in {q[k] : k \in DOMAIN q} : \A k \in DOMAIN q : q[k] <= m
Arg(t, v, r) == [t |-> t, v |-> v, r |-> r]
i(n) == Arg("i", ToString(n), TRUE)
n_(n) == Arg("i", ToString(n), FALSE)         \* a count: the request does not have it
f(s) == Arg("f", s, TRUE)
fi(n) == Arg("f", ToString(n), TRUE)
s(t) == Arg("s", t, TRUE)
I(q) == Arg("I", Join(q), TRUE)
FA(q) == Arg("F", Join(q), TRUE)
SA(q) == Arg("S", JoinS(q), TRUE)
filt(t) == Arg("x", t, TRUE)
null == Arg("0", "", FALSE)
Mat(b) == Arg("F", Join([k \in 1..16 |-> b + k]), TRUE)
R(sc, par, args) == [sc |-> sc, par |-> par, args |-> args, ok |-> TRUE]
Bad(sc, par, args) == [sc |-> sc, par |-> par, args |-> args, ok |-> FALSE]

(* calls whose parameters, if any, have one element: scopes, whether there is a parameter list, the arguments *)
Plain == [
  Format |-> {R(Outer, FALSE, <<i(320), i(-240), f("1.5")>>), Bad(Outer, FALSE, <<i(0), i(240), f("1")>>)},
  FrameAspectRatio |-> {R(Outer, FALSE, <<f("1.5")>>), Bad(Outer, FALSE, <<f("0")>>)},
  ScreenWindow |-> {R(Outer, FALSE, <<fi(-1), fi(2), fi(-3), fi(4)>>), Bad(Outer, FALSE, <<fi(2), fi(1), fi(-3), fi(4)>>)},
  CropWindow |-> {R(Outer, FALSE, <<f("0.125"), f("0.5"), f("0.25"), f("0.75")>>)},
  Projection |-> {R(Outer, TRUE, <<s("perspective")>>)}, Clipping |-> {R(Outer, FALSE, <<f("0.5"), fi(100)>>), Bad(Outer, FALSE, <<fi(5), fi(4)>>)},
  ClippingPlane |-> {R(Everywhere, FALSE, <<fi(1), fi(2), fi(3), fi(4), fi(5), fi(6)>>)},
  DepthOfField |-> {R(Outer, FALSE, <<fi(1), fi(2), fi(3)>>)}, Shutter |-> {R(Outer, FALSE, <<f("0.25"), f("0.5")>>)},
  PixelVariance |-> {R(Outer, FALSE, <<f("0.5")>>)}, PixelSamples |-> {R(Outer, FALSE, <<fi(2), fi(3)>>)},
  PixelFilter |-> {R(Outer, FALSE, <<filt(t), fi(2), fi(3)>>) : t \in {"box", "gaussian", "triangle", "catmull-rom", "sinc", "mitchell", "disk", "bessel"}},
  Exposure |-> {R(Outer, FALSE, <<fi(2), fi(3)>>)}, Imager |-> {R(Outer, TRUE, <<s("im")>>)}, Quantize |-> {R(Outer, FALSE, <<s("rgba"), i(255), i(1), i(254), f("0.5")>>)},
  Display |-> {R(Outer, TRUE, <<s("f"), s("file"), s("rgb")>>)}, Hider |-> {R(Outer, TRUE, <<s("hidden")>>)}, Option |-> {R(Outer, TRUE, <<s("user")>>)},
  ColorSamples |-> {R(Outer, FALSE, <<n_(3), FA(<<1, 2, 3, 4, 5, 6, 7, 8, 9>>), FA(<<9, 8, 7, 6, 5, 4, 3, 2, 1>>)>>)},
  RelativeDetail |-> {R(Outer, FALSE, <<f("0.5")>>)}, Color |-> {R(Everywhere, FALSE, <<FA(<<1, 2, 3>>)>>)}, Opacity |-> {R(Everywhere, FALSE, <<FA(<<3, 2, 1>>)>>)},
  TextureCoordinates |-> {R(Everywhere, FALSE, <<fi(1), fi(2), fi(3), fi(4), fi(5), fi(6), fi(7), fi(8)>>)},
  Surface |-> {R(Everywhere, TRUE, <<s("su")>>)}, Displacement |-> {R(Everywhere, TRUE, <<s("di")>>)}, Atmosphere |-> {R(Everywhere, TRUE, <<s("at")>>)},
  Interior |-> {R(Everywhere, TRUE, <<s("in")>>)}, Exterior |-> {R(Everywhere, TRUE, <<s("ex")>>)}, ShaderLayer |-> {R(Everywhere, TRUE, <<s("surface"), s("a"), s("b")>>)},
  ConnectShaderLayers |-> {R(Everywhere, FALSE, <<s("surface"), s("a"), s("x"), s("b"), s("y")>>)}, ShadingRate |-> {R(Everywhere, FALSE, <<f("0.5")>>), Bad(Everywhere, FALSE, <<f("-1")>>)},
  ShadingInterpolation |-> {R(Everywhere, FALSE, <<s("smooth")>>)}, Matte |-> {R(Everywhere, FALSE, <<i(1)>>)}, Bound |-> {R(Everywhere, FALSE, <<FA(<<1, 2, 3, 4, 5, 6>>)>>)},
  Detail |-> {R(Everywhere, FALSE, <<FA(<<1, 2, 3, 4, 5, 6>>)>>)}, DetailRange |-> {R(Everywhere, FALSE, <<fi(1), fi(2), fi(3), fi(4)>>)},
  GeometricApproximation |-> {R(Everywhere, FALSE, <<s("flatness"), f("2.5")>>)}, Orientation |-> {R(Everywhere, FALSE, <<s("lh")>>)}, ReverseOrientation |-> {R(Everywhere, FALSE, <<>>)},
  Sides |-> {R(Everywhere, FALSE, <<i(2)>>)}, Identity |-> {R(Everywhere, FALSE, <<>>)}, Transform |-> {R(Everywhere, FALSE, <<Mat(0)>>)}, ConcatTransform |-> {R(Everywhere, FALSE, <<Mat(20)>>)},
  Perspective |-> {R(Everywhere, FALSE, <<fi(45)>>)}, Translate |-> {R(Everywhere, FALSE, <<fi(1), fi(2), fi(3)>>)}, Rotate |-> {R(Everywhere, FALSE, <<fi(90), fi(1), fi(2), fi(3)>>)},
  Scale |-> {R(Everywhere, FALSE, <<fi(4), fi(5), fi(6)>>)}, Skew |-> {R(Everywhere, FALSE, <<fi(10), fi(1), fi(2), fi(3), fi(4), fi(5), fi(6)>>)},
  CoordinateSystem |-> {R(Everywhere \ {"Motion"}, FALSE, <<s("cs")>>)}, CoordSysTransform |-> {R(Everywhere, FALSE, <<s("ct")>>)},
  Attribute |-> {R(Everywhere, TRUE, <<s("user")>>)}, Geometry |-> {R(NoMotion, TRUE, <<s("teapot")>>)},
  MakeTexture |-> {R(Outer, TRUE, <<s("a"), s("b"), s("black"), s("clamp"), filt("gaussian"), fi(2), fi(3)>>)},
  MakeLatLongEnvironment |-> {R(Outer, TRUE, <<s("a"), s("b"), filt("box"), fi(2), fi(3)>>)},
  MakeCubeFaceEnvironment |-> {R(Outer, TRUE, <<s("a"), s("b"), s("c"), s("d"), s("e"), s("f"), s("g"), fi(90), filt("triangle"), fi(2), fi(3)>>)},
  MakeShadow |-> {R(Outer, TRUE, <<s("a"), s("b")>>)}, MakeOcclusion |-> {R(Outer, TRUE, <<n_(2), SA(<<"p", "q">>), s("b")>>)},
  ReadArchive |-> {R(Everywhere, TRUE, <<s("ar"), null>>)}, ErrorHandler |-> {R(Everywhere, FALSE, <<Arg("e", t, TRUE)>>) : t \in {"ignore", "print", "abort"}},
  TrimCurve |-> {R(InWorld, FALSE, <<n_(2), I(<<1, 2>>), I(<<3, 2, 2>>), FA(<<0, 0, 0, 1, 2, 2, 2, 0, 0, 1, 1, 0, 0, 1, 2, 2>>), FA(<<0, 1, 2>>), FA(<<3, 4, 5>>), I(<<4, 2, 3>>),
                                             FA(<<1, 2, 3, 4, 5, 6, 7, 8, 9>>), FA(<<9, 8, 7, 6, 5, 4, 3, 2, 1>>), FA(<<1, 1, 2, 2, 3, 3, 4, 4, 5>>)>>)} ]

-----------------------------------------------------------------------------
(* Primitives, and how many elements a parameter of each class has; 0: a class   *)
(* that is not used with the primitive.                                             *)
Cnt(u, v, x, fv, fx) == [constant |-> 1, uniform |-> u, varying |-> v, vertex |-> x, facevarying |-> fv, facevertex |-> fx]
Pr(n, needP, c, args) == [n |-> n, needP |-> needP, cnt |-> c, args |-> args]
V4 == Cnt(1, 4, 4, 4, 4)
PMesh(ty, nu, uw, nv, vw, st) ==
  LET up == uw = "periodic"  vp == vw = "periodic"
      bu == IF up THEN nu ELSE nu - 1   bv == IF vp THEN nv ELSE nv - 1
      cu == IF up THEN nu \div st[1] ELSE ((nu - 4) \div st[1]) + 1
      cv == IF vp THEN nv \div st[2] ELSE ((nv - 4) \div st[2]) + 1
      va == ((IF up THEN 0 ELSE 1) + cu) * ((IF vp THEN 0 ELSE 1) + cv)
  IN Pr("PatchMesh", FALSE, IF ty = "bilinear" THEN Cnt(bu * bv, nu * nv, nu * nv, 0, 0) ELSE Cnt(cu * cv, va, nu * nv, 0, 0), <<s(ty), i(nu), s(uw), i(nv), s(vw)>>)
Crv(ty, ns, w, st) ==
  LET p == w = "periodic"  seg(n) == IF p THEN n \div st[2] ELSE ((n - 4) \div st[2]) + 1
      va == Sum([k \in DOMAIN ns |-> seg(ns[k])]) + (IF p THEN 0 ELSE Len(ns))
  IN Pr("Curves", TRUE, IF ty = "linear" THEN Cnt(Len(ns), Sum(ns), Sum(ns), 0, 0) ELSE Cnt(Len(ns), va, Sum(ns), 0, 0), <<s(ty), n_(Len(ns)), I(ns), s(w)>>)
PPoly(nv, vs) == Pr("PointsPolygons", TRUE, Cnt(Len(nv), Max(vs) + 1, Max(vs) + 1, Sum(nv), Sum(nv)), <<n_(Len(nv)), I(nv), I(vs)>>)
PGPoly(nl, nv, vs) == Pr("PointsGeneralPolygons", FALSE, Cnt(Len(nl), Max(vs) + 1, Max(vs) + 1, Sum(nv), Sum(nv)), <<n_(Len(nl)), I(nl), I(nv), I(vs)>>)
Subd(nv, vs, tg, na, ia, fa) == Pr("SubdivisionMesh", FALSE, Cnt(Len(nv), Max(vs) + 1, Max(vs) + 1, Sum(nv), Sum(nv)),
                                   <<s("catmull-clark"), n_(Len(nv)), I(nv), I(vs), n_(Len(tg)), SA(tg), I(na), I(ia), FA(fa)>>)
Kn(n) == [k \in 1..n |-> IF k < 4 THEN 0 ELSE k]
NuP(nu, uo, nv, vo) == LET va == (nu - uo + 2) * (nv - vo + 2) IN
      Pr("NuPatch", FALSE, Cnt((nu - uo + 1) * (nv - vo + 1), va, nu * nv, va, va), <<i(nu), i(uo), FA(Kn(nu + uo)), fi(0), fi(4), i(nv), i(vo), FA(Kn(nv + vo)), fi(1), fi(5)>>)
NV(nn, n) == Pr(nn, TRUE, Cnt(1, n, n, n, n), <<n_(n)>>)
GP(ns) == Pr("GeneralPolygon", TRUE, Cnt(1, Sum(ns), Sum(ns), Sum(ns), Sum(ns)), <<n_(Len(ns)), I(ns)>>)
PrimSet(st) ==
  {NV("Polygon", 3), NV("Polygon", 5), NV("Points", 1), NV("Points", 4), GP(<<3>>), GP(<<4, 3>>),
   PPoly(<<3>>, <<0, 1, 2>>), PPoly(<<3, 4>>, <<0, 1, 2, 2, 1, 3, 5>>), PPoly(<<4, 3, 3>>, <<7, 1, 2, 0, 2, 1, 3, 0, 1, 5>>),
   PGPoly(<<1, 2>>, <<3, 3, 4>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 2>>), PGPoly(<<2>>, <<4, 3>>, <<0, 9, 2, 3, 4, 5, 6>>),
   Subd(<<4, 3>>, <<0, 1, 2, 3, 3, 2, 6>>, <<>>, <<>>, <<>>, <<>>), Subd(<<4>>, <<0, 1, 2, 3>>, <<"crease", "hole">>, <<2, 1, 1, 0>>, <<0, 1, 0>>, <<2>>),
   Subd(<<4, 4>>, <<0, 1, 2, 3, 3, 2, 4, 5>>, <<"interpolateboundary", "crease", "corner">>, <<0, 0, 3, 2, 1, 1>>, <<0, 1, 2, 5>>, <<2, 3, 4>>),
   Pr("Patch", FALSE, V4, <<s("bilinear")>>), Pr("Patch", FALSE, Cnt(1, 4, 16, 4, 4), <<s("bicubic")>>),
   Pr("Sphere", FALSE, V4, <<fi(1), fi(-2), fi(3), fi(360)>>), Pr("Cone", FALSE, V4, <<fi(1), fi(2), fi(90)>>), Pr("Torus", FALSE, V4, <<fi(3), fi(1), fi(-4), fi(5), fi(90)>>),
   Pr("Cylinder", FALSE, V4, <<fi(1), fi(-2), fi(3), fi(360)>>), Pr("Disk", FALSE, V4, <<fi(1), fi(2), fi(90)>>), Pr("Paraboloid", FALSE, V4, <<fi(1), fi(2), fi(3), fi(90)>>),
   Pr("Hyperboloid", FALSE, V4, <<FA(<<1, 2, 3>>), FA(<<4, 5, 6>>), fi(90)>>),
   Pr("Blobby", FALSE, Cnt(1, 2, 2, 2, 2), <<i(2), n_(6), I(<<1001, 0, 1001, 16, 0, 1>>), n_(18), FA([k \in 1..18 |-> k]), n_(2), SA(<<"aa", "bb">>)>>),
   NuP(3, 3, 3, 3), NuP(4, 3, 4, 4), NuP(5, 4, 3, 2), NuP(4, 2, 6, 3)}
  \cup {PMesh("bilinear", nu, uw, nv, vw, st) : nu \in {2, 3}, uw \in {"periodic", "nonperiodic"}, nv \in {3, 5}, vw \in {"periodic", "nonperiodic"}}
  \cup {PMesh("bicubic", nu, uw, nv, vw, st) : nu \in {6, 7}, uw \in {"periodic", "nonperiodic"}, nv \in {4, 12}, vw \in {"periodic", "nonperiodic"}}
  \cup {Crv(ty, ns, w, st) : ty \in {"linear", "cubic"}, ns \in {<<4>>, <<7, 6>>, <<4, 12, 5>>}, w \in {"periodic", "nonperiodic"}}

-----------------------------------------------------------------------------
Classes == {"constant", "uniform", "varying", "vertex", "facevarying", "facevertex"}
Types == {"float", "point", "color", "string", "int", "hpoint", "matrix", "vector", "normal"}
Comp == [float |-> 1, point |-> 3, color |-> 3, string |-> 1, int |-> 1, hpoint |-> 4, matrix |-> 16, vector |-> 3, normal |-> 3]
DNames == {"qa", "qb"}
Empty == [scopes |-> <<"BeginEnd">>, steps |-> <<<<3, 3>>>>, hs |-> <<{}>>, decl |-> [d \in DNames |-> [c |-> "", ty |-> "float", n |-> 0]], fmt |-> ""]
Init == cur = 0 /\ ctx = [c \in {} |-> Empty] /\ opt = [bin |-> FALSE, gz |-> FALSE] /\ nh = 0 /\ log = <<>> /\ done = FALSE
(* guidance of the random runs: Odds(n) is true once in n times *)
Odds(n) == ~Rand \/ (Len(log) >= 0 /\ RandomElement(1..n) = 1)
Room == ~done /\ Len(log) < MaxLen
C == ctx[cur]
Here == C.scopes[1]
InArch == Here = "Archive"
OkScope(Sc) == Here \in Sc
Ev(e) == log' = Append(log, e)
Base == [k |-> "", c |-> cur, n |-> "", form |-> "V", args |-> <<>>, par |-> <<>>, h |-> 0, ok |-> TRUE, fmt |-> ""]
Upd(g) == ctx' = [ctx EXCEPT ![cur] = g]

(* a parameter: how its token is written, and what it stands for *)
Inline(c, ty, n, sp, nm) ==
  LET arr == IF n = 1 /\ sp # 2 THEN "" ELSE "[" \o ToString(n) \o "]"
      t == CASE sp = 0 -> c \o " " \o ty \o arr \o " " \o nm [] sp = 1 -> " " \o c \o "  " \o ty \o arr \o " " \o nm \o " " [] OTHER -> c \o " " \o ty \o arr \o " " \o nm \o "  "
  IN [tok |-> t, c |-> c, ty |-> ty, arr |-> n, nm |-> nm, ok |-> TRUE]
Decl(d) == LET q == C.decl[d] IN [tok |-> d, c |-> IF q.c = "" THEN "constant" ELSE q.c, ty |-> q.ty, arr |-> IF q.n = 0 THEN 1 ELSE q.n, nm |-> d, ok |-> q.c # ""]
Counted(p, cnt) == [tok |-> p.tok, spec |-> p.c \o " " \o p.ty \o "[" \o ToString(p.arr) \o "]", nm |-> p.nm, ty |-> p.ty, size |-> cnt[p.c] * p.arr * Comp[p.ty], ok |-> p.ok]
(* a random parameter list without P *)
ParamsOf(cnt) == IF ~Rand THEN {<<>>} ELSE
  {SelectSeq([k \in 1..n |-> Counted(x[k], cnt)], LAMBDA p : p.size > 0) :
     n \in Pick({0, 1, 1, 2, 3}),
     x \in {[k \in 1..3 |-> IF dn = k THEN Decl(d) ELSE Inline(c[k], ty[k], a[k], sp[k], <<"xa", "yy", "zlonglonglongnamez">>[k])] :
              dn \in Pick({0, 1, 2, 3, 7}), d \in Pick(DNames), c \in Pick([1..3 -> Classes]), ty \in Pick([1..3 -> Types]), a \in Pick([1..3 -> {1, 2}]), sp \in Pick([1..3 -> {0, 1, 2}])} }
ParOk(ps) == \A k \in DOMAIN ps : ps[k].ok
One == [q \in Classes |-> 1]
Forms == {"V", "..."}

BeginCtx == /\ Room /\ "ctx" \in Kinds /\ Cardinality(DOMAIN ctx) < NCtx
            /\ LET c == Cardinality(DOMAIN ctx) + 1 IN
               /\ ctx' = [d \in DOMAIN ctx \cup {c} |-> IF d = c THEN Empty ELSE ctx[d]] /\ cur' = c
               /\ Ev([Base EXCEPT !.k = "begin", !.c = c, !.fmt = (IF opt.gz THEN "gz" ELSE IF opt.bin THEN "bin" ELSE "ascii")])
               /\ UNCHANGED <<opt, nh, done>>
Ended(c) == ctx[c].scopes = <<>>
EndCtx == /\ Room /\ "ctx" \in Kinds /\ cur # 0 /\ Len(log) > 8 /\ Odds(6)
          /\ Upd([C EXCEPT !.scopes = <<>>]) /\ cur' = 0 /\ Ev([Base EXCEPT !.k = "end"]) /\ UNCHANGED <<opt, nh, done>>
Switch == /\ Room /\ "ctx" \in Kinds /\ \E c \in Pick(IF DOMAIN ctx = {} THEN {0} ELSE DOMAIN ctx) :
               /\ c # 0 /\ c \in DOMAIN ctx /\ ~Ended(c) /\ c # cur
               /\ cur' = c /\ Ev([Base EXCEPT !.k = "switch", !.c = c]) /\ UNCHANGED <<ctx, opt, nh, done>>
PreOpt == /\ Room /\ "ctx" \in Kinds /\ cur = 0 /\ \E o \in Pick({"bin", "gz"}) : \E v \in Pick(BOOLEAN) : \E fm \in Pick(Forms) :
            /\ opt' = [opt EXCEPT ![o] = v]
            /\ Ev([Base EXCEPT !.k = "opt", !.n = o, !.form = fm, !.ok = v]) /\ UNCHANGED <<cur, ctx, nh, done>>
On == Room /\ cur # 0

BeginArgs == [Frame |-> <<i(7)>>, World |-> <<>>, Attribute |-> <<>>, Transform |-> <<>>, Solid |-> <<s("union")>>, Object |-> <<>>, Motion |-> <<n_(2), FA(<<0, 1>>)>>, Archive |-> <<s("ar")>>]
Begin == /\ On /\ "block" \in Kinds /\ Len(C.scopes) < 8 /\ \E b \in Pick(IF InArch THEN {"Archive"} ELSE IF Rand /\ "prim" \in Kinds /\ Here \in {"BeginEnd", "Frame"} /\ Odds(2) THEN {"World"} ELSE IF Rand /\ RandomElement(1..2) = 1 /\ {x \in Blocks : Here \in Opens[x]} # {} THEN {x \in Blocks : Here \in Opens[x]} ELSE Blocks) : \E fm \in Pick(Forms) :
              \E ps \in (IF b = "Archive" THEN ParamsOf(One) ELSE {<<>>}) :
           LET ok == OkScope(Opens[b]) /\ ParOk(ps)   obj == b = "Object" IN
           /\ Ev([Base EXCEPT !.k = "call", !.n = b \o "Begin", !.form = (IF b \in {"Motion", "Archive"} THEN fm ELSE "V"), !.args = BeginArgs[b], !.par = ps, !.ok = ok, !.h = (IF obj THEN nh + 1 ELSE 0)])
           /\ nh' = IF obj THEN nh + 1 ELSE nh
           /\ IF ~ok THEN UNCHANGED ctx ELSE
              Upd([C EXCEPT !.scopes = <<b>> \o @, !.steps = (IF b \in KeepsBasis THEN @ ELSE <<@[1]>> \o @),
                            !.hs = (LET a == IF obj THEN [@ EXCEPT ![1] = @ \cup {nh + 1}] ELSE @ IN IF b \in HandleScope THEN <<{}>> \o a ELSE a)])
           /\ UNCHANGED <<cur, opt, done>>
End == /\ On /\ "block" \in Kinds /\ (Here \notin {"World", "Frame"} \/ Odds(5)) /\ \E b \in Pick(IF Rand /\ Here \in Blocks THEN {Here, RandomElement(Blocks)} ELSE Blocks) :
         /\ InArch => b = "Archive"
         /\ LET ok == Here = b IN
            /\ Ev([Base EXCEPT !.k = "call", !.n = b \o "End", !.ok = ok])
            /\ IF ~ok THEN UNCHANGED ctx ELSE
               Upd([C EXCEPT !.scopes = Tail(@), !.steps = (IF b \in KeepsBasis THEN @ ELSE Tail(@)), !.hs = (IF b \in HandleScope THEN Tail(@) ELSE @)])
            /\ UNCHANGED <<cur, opt, nh, done>>
PlainCall == /\ On /\ "plain" \in Kinds /\ \E n \in Pick(IF Rand /\ RandomElement(1..3) > 1 THEN {x \in DOMAIN Plain : \E r \in Plain[x] : OkScope(r.sc)} ELSE DOMAIN Plain) : \E r \in Pick(Plain[n]) : \E fm \in Pick(Forms) :
                  \E ps \in (IF r.par THEN ParamsOf(One) ELSE {<<>>}) :
               /\ Ev([Base EXCEPT !.k = "call", !.n = n, !.form = (IF r.par THEN fm ELSE "V"), !.args = r.args, !.par = ps, !.ok = (r.ok /\ OkScope(r.sc) /\ ParOk(ps))])
               /\ UNCHANGED <<cur, ctx, opt, nh, done>>
SetBasis == /\ On /\ "basis" \in Kinds /\ \E u \in Pick({0, 1, 2, 3}) : \E v \in Pick({1, 2, 3, 4, 0}) :
              /\ Ev([Base EXCEPT !.k = "call", !.n = "Basis", !.args = <<Mat(10), i(u), Mat(-30), i(v)>>, !.ok = (u > 0 /\ v > 0)])
              /\ IF u > 0 /\ v > 0 THEN Upd([C EXCEPT !.steps = [@ EXCEPT ![1] = <<u, v>>]]) ELSE UNCHANGED ctx
              /\ UNCHANGED <<cur, opt, nh, done>>
Declare == /\ On /\ "decl" \in Kinds /\ ~InArch /\ \E d \in Pick(DNames) : \E c \in Pick(Classes) : \E ty \in Pick(Types) : \E n \in Pick({1, 2, 3}) :
             /\ Ev([Base EXCEPT !.k = "call", !.n = "Declare", !.args = <<s(d), s(c \o " " \o ty \o (IF n = 1 THEN "" ELSE "[" \o ToString(n) \o "]"))>>])
             /\ Upd([C EXCEPT !.decl = [@ EXCEPT ![d] = [c |-> c, ty |-> ty, n |-> n]]])
             /\ UNCHANGED <<cur, opt, nh, done>>
PosPar(w) == IF w = "P" THEN [tok |-> "P", c |-> "vertex", ty |-> "point", arr |-> 1, nm |-> "P", ok |-> TRUE] ELSE [tok |-> "Pw", c |-> "vertex", ty |-> "hpoint", arr |-> 1, nm |-> "Pw", ok |-> TRUE]
Prim == /\ On /\ "prim" \in Kinds /\ (Here \in InWorld \/ Odds(8)) /\ \E p \in Pick(IF Rand /\ "basis" \in Kinds /\ Odds(2) THEN {x \in PrimSet(C.steps[1]) : x.n \in {"PatchMesh", "Curves"}} ELSE PrimSet(C.steps[1])) : \E fm \in Pick(Forms) : \E w \in Pick({"P", "Pw", "none"}) : \E ps \in ParamsOf(p.cnt) :
          LET all == (IF w = "none" THEN <<>> ELSE <<Counted(PosPar(w), p.cnt)>>) \o ps
              ok == OkScope(InWorld) /\ ParOk(ps) /\ (w # "none" \/ ~p.needP)
          IN /\ Ev([Base EXCEPT !.k = "call", !.n = p.n, !.form = fm, !.args = p.args, !.par = all, !.ok = ok])
             /\ UNCHANGED <<cur, ctx, opt, nh, done>>
Proc == /\ On /\ "prim" \in Kinds /\ Odds(4) /\ \E t \in Pick({"DelayedReadArchive", "RunProgram", "DynamicLoad"}) :
          /\ Ev([Base EXCEPT !.k = "call", !.n = "Procedural", !.args = <<SA(IF t = "DelayedReadArchive" THEN <<"fa">> ELSE <<"fa", "gb">>), FA(<<1, 2, 3, 4, 5, 6>>), Arg("p", t, TRUE), null>>, !.ok = OkScope(NoMotion)])
          /\ UNCHANGED <<cur, ctx, opt, nh, done>>
Light == /\ On /\ "handle" \in Kinds /\ \E n \in Pick({"LightSource", "AreaLightSource"}) : \E fm \in Pick(Forms) : \E ps \in ParamsOf(One) :
           LET ok == OkScope(Everywhere \ {"Object"}) /\ ParOk(ps) IN
           /\ Ev([Base EXCEPT !.k = "call", !.n = n, !.form = fm, !.args = <<s("li")>>, !.par = ps, !.ok = ok, !.h = nh + 1])
           /\ nh' = nh + 1
           /\ IF ok THEN Upd([C EXCEPT !.hs = [@ EXCEPT ![1] = @ \cup {nh + 1}]]) ELSE UNCHANGED ctx
           /\ UNCHANGED <<cur, opt, done>>
Valid(h) == \E k \in DOMAIN C.hs : h \in C.hs[k]
UseHandle == /\ On /\ "handle" \in Kinds /\ nh > 0 /\ \E n \in Pick({"Illuminate", "ObjectInstance"}) : \E v \in Pick({0, 1}) :
                  \E h \in Pick(IF Rand /\ RandomElement(1..3) > 1 /\ (\E x \in 1..nh : Valid(x)) THEN {x \in 1..nh : Valid(x)} ELSE 1..nh) :
               /\ Ev([Base EXCEPT !.k = "use", !.n = n, !.h = h, !.args = <<Arg("h", ToString(h), TRUE)>> \o (IF n = "Illuminate" THEN <<i(v)>> ELSE <<>>),
                         !.ok = (OkScope(IF n = "Illuminate" THEN Everywhere ELSE NoMotion) /\ Valid(h)), !.fmt = (IF OkScope(IF n = "Illuminate" THEN Everywhere ELSE NoMotion) THEN "scope" ELSE "")])
               /\ UNCHANGED <<cur, ctx, opt, nh, done>>
Stop == /\ ~done /\ log # <<>> /\ (Rand => Len(log) >= MaxLen) /\ done' = TRUE /\ UNCHANGED <<cur, ctx, opt, nh, log>>
Next == BeginCtx \/ EndCtx \/ Switch \/ PreOpt \/ Begin \/ End \/ PlainCall \/ SetBasis \/ Declare \/ Prim \/ Proc \/ Light \/ UseHandle \/ Stop

-----------------------------------------------------------------------------
TypeOK == /\ cur \in {0} \cup DOMAIN ctx /\ (cur # 0 => ~Ended(cur))
          /\ \A c \in DOMAIN ctx : \A k \in DOMAIN ctx[c].steps : ctx[c].steps[k][1] > 0 /\ ctx[c].steps[k][2] > 0
(* a handle belongs to one context and one scope *)
HandlesApart == \A c, d \in DOMAIN ctx : \A j \in DOMAIN ctx[c].hs : \A k \in DOMAIN ctx[d].hs : (c # d \/ j # k) => ctx[c].hs[j] \cap ctx[d].hs[k] = {}
(* each context keeps one saved basis and one handle scope for each block that saves them *)
Saved == \A c \in DOMAIN ctx : Ended(c) \/
           LET sc == ctx[c].scopes IN
           /\ Len(ctx[c].steps) = 1 + Cardinality({k \in 1..(Len(sc) - 1) : sc[k] \notin KeepsBasis})
           /\ Len(ctx[c].hs) = 1 + Cardinality({k \in DOMAIN sc : sc[k] \in HandleScope})
Emit == done => PrintT("@@" \o ToJson(log))
=============================================================================
