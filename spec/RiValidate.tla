----------------------------- MODULE RiValidate -----------------------------
(* Which requests are legal where, with which arguments.  A stream of arbitrary    *)
(* requests is issued; a request that is illegal in the current block, whose        *)
(* arguments are out of range, or whose arrays are too short is dropped and leaves  *)
(* no trace; every other request goes through.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,      \* kinds of request used
          MaxLen, Rand,
          Relaxed     \* the stream is a fragment: the outermost scope admits anything

VARIABLES scopes,     \* stack of open blocks, innermost first
          steps,      \* stack of <<ustep, vstep>> of the current Basis, innermost first
          out, done
vars == <<scopes, steps, out, done>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

Blocks == {"Frame", "World", "Attribute", "Transform", "Solid", "Object", "Motion", "Archive"}
Outer == {"BeginEnd", "Frame", "Archive"}                                  \* options
Everywhere == {"BeginEnd", "Frame", "World", "Attribute", "Transform", "Solid", "Object", "Motion", "Archive"}
InWorld == {"World", "Attribute", "Transform", "Solid", "Object", "Motion", "Archive"}   \* primitives
NoMotion == InWorld \ {"Motion"}

-----------------------------------------------------------------------------
(* Requests without restrictions on their arguments: text and scopes. *)
Plain == [
  Declare |-> <<Everywhere, "\"qq\" \"float\"">>, Projection |-> <<Outer, "\"perspective\"">>, ClippingPlane |-> <<{}, "0 0 0 0 0 1">>,
  Imager |-> <<Outer, "\"im\"">>, Display |-> <<Outer, "\"f\" \"file\" \"rgb\"">>, Hider |-> <<Outer, "\"hidden\"">>, Option |-> <<Outer, "\"user\"">>,
  ColorSamples |-> <<Outer, "[1 0 0 0 1 0 0 0 1] [1 0 0 0 1 0 0 0 1]">>,
  Color |-> <<Everywhere, "[0 0 1]">>, Opacity |-> <<Everywhere, "[0 0 1]">>, TextureCoordinates |-> <<Everywhere, "0 0 0 1 1 0 1 1">>,
  LightSource |-> <<Everywhere \ {"Object"}, "\"l\" \"1\"">>, AreaLightSource |-> <<Everywhere \ {"Object"}, "\"l\" \"2\"">>, Illuminate |-> <<Everywhere, "\"1\" 0">>,
  Surface |-> <<Everywhere, "\"s\"">>, Displacement |-> <<Everywhere, "\"s\"">>, Atmosphere |-> <<Everywhere, "\"s\"">>, Interior |-> <<Everywhere, "\"s\"">>, Exterior |-> <<Everywhere, "\"s\"">>,
  ShaderLayer |-> <<Everywhere, "\"surface\" \"a\" \"b\"">>, ConnectShaderLayers |-> <<{}, "\"surface\" \"a\" \"x\" \"b\" \"y\"">>,
  ShadingInterpolation |-> <<Everywhere, "\"smooth\"">>, Matte |-> <<Everywhere, "1">>, Bound |-> <<Everywhere, "0 1 0 1 0 1">>, Detail |-> <<Everywhere, "0 1 0 1 0 1">>,
  Orientation |-> <<Everywhere, "\"lh\"">>, ReverseOrientation |-> <<Everywhere, "">>, Sides |-> <<Everywhere, "1">>, Identity |-> <<Everywhere, "">>,
  Transform |-> <<Everywhere, "[1 0 0 0 0 1 0 0 0 0 1 0 0 0 0 1]">>, ConcatTransform |-> <<Everywhere, "[1 0 0 0 0 1 0 0 0 0 1 0 0 0 0 1]">>,
  Translate |-> <<Everywhere, "1 0 0">>, Rotate |-> <<Everywhere, "1 0 0 1">>, Scale |-> <<Everywhere, "1 2 1">>, Skew |-> <<Everywhere, "1 0 0 1 0 1 0">>,
  CoordinateSystem |-> <<Everywhere \ {"Motion"}, "\"c\"">>, CoordSysTransform |-> <<Everywhere, "\"c\"">>, Resource |-> <<{}, "\"a\" \"b\"">>,
  Attribute |-> <<Everywhere, "\"user\"">>, Procedural |-> <<NoMotion, "\"DelayedReadArchive\" [\"x\"] [0 1 0 1 0 1]">>, Geometry |-> <<NoMotion, "\"teapot\"">>,
  ObjectInstance |-> <<NoMotion, "\"1\"">>, MakeShadow |-> <<Outer, "\"a\" \"b\"">>, MakeOcclusion |-> <<Outer, "[\"a\"] \"b\"">>,
  ErrorHandler |-> <<Everywhere, "\"ignore\"">>, ReadArchive |-> <<{}, "\"arch\"">>, Blobby |-> <<InWorld, "1 [1001 0 0 1] [1 0 0 0 0 1 0 0 0 0 1 0 0 0 0 1] [\"\"]">>,
  IfBegin |-> <<{}, "\"c\"">>, ElseIf |-> <<{}, "\"c\"">>, Else |-> <<{}, "">>, IfEnd |-> <<{}, "">> ]

-----------------------------------------------------------------------------
(* Requests with restricted numeric arguments.  A slot is a literal, an integer I,  *)
(* or a number F; numbers are in halves.  A check relates a slot to a constant (in  *)
(* halves) or to another slot.                                                       *)
I == [t |-> "I", s |-> ""]   F == [t |-> "F", s |-> ""]   L(s) == [t |-> "L", s |-> s]
C(i, op, v) == [i |-> i, op |-> op, r |-> "const", v |-> v]
A(i, op, j) == [i |-> i, op |-> op, r |-> "slot", v |-> j]
Ranged == [
  Format |-> <<Outer, <<I, I, F>>, <<C(1, "ne", 0), C(2, "ne", 0), C(3, "ne", 0)>> >>,
  FrameAspectRatio |-> <<Outer, <<F>>, <<C(1, "gt", 0)>> >>,
  ScreenWindow |-> <<Outer, <<F, F, F, F>>, <<A(1, "lt", 2), A(3, "lt", 4)>> >>,
  CropWindow |-> <<Outer, <<F, F, F, F>>, <<C(1, "ge", 0), A(1, "lt", 2), C(2, "le", 2), C(3, "ge", 0), A(3, "lt", 4), C(4, "le", 2)>> >>,
  Clipping |-> <<Outer, <<F, F>>, <<C(1, "gt", 0), A(2, "gt", 1)>> >>,
  DepthOfField |-> <<Outer, <<F, F, F>>, <<C(1, "gt", 0), C(2, "gt", 0), C(3, "gt", 0)>> >>,
  Shutter |-> <<Outer, <<F, F>>, <<A(1, "le", 2)>> >>,
  PixelVariance |-> <<Outer, <<F>>, <<C(1, "ge", 0)>> >>,
  PixelSamples |-> <<Outer, <<F, F>>, <<C(1, "ge", 2), C(2, "ge", 2)>> >>,
  PixelFilter |-> <<Outer, <<L("\"box\""), F, F>>, <<C(2, "gt", 0), C(3, "gt", 0)>> >>,
  Exposure |-> <<Outer, <<F, F>>, <<C(1, "gt", 0), C(2, "gt", 0)>> >>,
  Quantize |-> <<Outer, <<L("\"rgba\""), I, I, I, F>>, <<C(2, "ge", 0), A(3, "le", 4), C(5, "ge", 0)>> >>,
  RelativeDetail |-> <<Outer, <<F>>, <<C(1, "ge", 0)>> >>,
  ShadingRate |-> <<Everywhere, <<F>>, <<C(1, "gt", 0)>> >>,
  DetailRange |-> <<Everywhere, <<F, F, F, F>>, <<A(1, "le", 2), A(2, "le", 3), A(3, "le", 4)>> >>,
  GeometricApproximation |-> <<Everywhere, <<L("\"flatness\""), F>>, <<C(2, "ge", 0)>> >>,
  Perspective |-> <<Everywhere, <<F>>, <<C(1, "gt", 0)>> >>,
  Sphere |-> <<InWorld, <<F, F, F, F>>, <<C(1, "ne", 0), A(2, "lt", 3), C(4, "ne", 0)>> >>,
  Cone |-> <<InWorld, <<F, F, F>>, <<C(2, "ne", 0), C(3, "ne", 0)>> >>,
  Cylinder |-> <<InWorld, <<F, F, F, F>>, <<C(1, "ne", 0), A(2, "ne", 3), C(4, "ne", 0)>> >>,
  Hyperboloid |-> <<InWorld, <<F, F, F, F, F, F, F>>, <<C(7, "ne", 0)>> >>,
  Paraboloid |-> <<InWorld, <<F, F, F, F>>, <<C(1, "ne", 0), A(2, "ne", 3), C(4, "ne", 0)>> >>,
  Disk |-> <<InWorld, <<F, F, F>>, <<C(2, "ne", 0), C(3, "ne", 0)>> >>,
  Torus |-> <<InWorld, <<F, F, F, F, F>>, <<C(1, "ne", 0), C(2, "ne", 0), A(3, "ne", 4), C(5, "ne", 0)>> >>,
  MakeTexture |-> <<Outer, <<L("\"a\" \"b\" \"black\" \"black\" \"box\""), F, F>>, <<C(2, "ge", 2), C(3, "ge", 2)>> >>,
  MakeLatLongEnvironment |-> <<Outer, <<L("\"a\" \"b\" \"box\""), F, F>>, <<C(2, "ge", 2), C(3, "ge", 2)>> >>,
  MakeCubeFaceEnvironment |-> <<Outer, <<L("\"a\" \"b\" \"c\" \"d\" \"e\" \"f\" \"g\" 90 \"box\""), F, F>>, <<C(2, "ge", 2), C(3, "ge", 2)>> >> ]
Rel(a, op, b) == CASE op = "ne" -> a # b [] op = "lt" -> a < b [] op = "le" -> a <= b [] op = "gt" -> a > b [] op = "ge" -> a >= b
Passes(cs, vs) == \A k \in DOMAIN cs : Rel(vs[cs[k].i], cs[k].op, IF cs[k].r = "const" THEN cs[k].v ELSE vs[cs[k].v])
Half(v) == CASE v = -2 -> "-1" [] v = -1 -> "-0.5" [] v = 0 -> "0" [] v = 1 -> "0.5" [] v = 2 -> "1" [] v = 3 -> "1.5" [] v = 4 -> "2"
SlotVals(s) == IF s.t = "I" THEN {-2, 0, 2, 4} ELSE IF s.t = "F" THEN {-1, 0, 1, 2, 3} ELSE {0}
SlotText(s, v) == IF s.t = "L" THEN s.s ELSE Half(v)
(* mostly legal values, so that a request fails for one reason at a time *)
RandVals(sl, cs) == LET good == {v \in {<<2, 2, 2, 2, 2, 2, 2>>, <<1, 2, 1, 2, 2, 2, 2>>, <<0, 2, 0, 2, 2, 2, 2>>, <<2, 1, 3, 4, 2, 2, 2>>, <<0, 1, 2, 3, 2, 2, 2>>, <<2, 4, 0, 4, 1, 1, 1>>, <<2, 4, 2, 2, 0, 2, 2>>} : Passes(cs, v)}
                        g == IF good = {} \/ RandomElement(1..4) = 1 THEN [k \in 1..7 |-> RandomElement({-1, 0, 1, 2, 3})] ELSE RandomElement(good)
                        \* often: disturb one slot
                        w == IF RandomElement(1..2) = 1 THEN [g EXCEPT ![RandomElement(1..Len(sl))] = RandomElement({-1, 0, 1, 2, 3})] ELSE g
                    IN [k \in DOMAIN sl |-> IF sl[k].t = "I" THEN (IF w[k] < 0 THEN -2 ELSE IF w[k] = 0 THEN 0 ELSE IF w[k] = 1 THEN 2 ELSE IF w[k] = 2 THEN 2 ELSE 4) ELSE w[k]]
ValsOf(sl, cs) == IF Rand THEN {RandVals(sl, cs)}
                  ELSE {f \in [DOMAIN sl -> {-2, -1, 0, 1, 2, 3, 4}] : \A k \in DOMAIN sl : f[k] \in SlotVals(sl[k])}

-----------------------------------------------------------------------------
(* Primitives with arrays: text of the fixed arguments, and how many values a      *)
(* parameter of each interpolation class needs.  -1: not checked.                   *)
Cnt(u, v, x, fv, fx) == [constant |-> 1, uniform |-> u, varying |-> v, vertex |-> x, facevarying |-> fv, facevertex |-> fx]
Divd(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
PMesh(ty, nu, uw, nv, vw, st) ==
  LET up == uw = "periodic"  vp == vw = "periodic"
      bu == IF up THEN nu ELSE nu - 1   bv == IF vp THEN nv ELSE nv - 1
      cu == IF up THEN nu \div st[1] ELSE Divd(nu - 4, st[1]) + 1
      cv == IF vp THEN nv \div st[2] ELSE Divd(nv - 4, st[2]) + 1
  IN [n |-> "PatchMesh", txt |-> "\"" \o ty \o "\" " \o ToString(nu) \o " \"" \o uw \o "\" " \o ToString(nv) \o " \"" \o vw \o "\"", needP |-> FALSE, short |-> FALSE, byP |-> FALSE,
      cnt |-> IF ty = "bilinear" THEN Cnt(bu * bv, nu * nv, nu * nv, 1, 1)
              ELSE IF Relaxed THEN Cnt(-1, -1, nu * nv, 1, 1)
              ELSE Cnt(cu * cv, ((IF up THEN 0 ELSE 1) + cu) * ((IF vp THEN 0 ELSE 1) + cv), nu * nv, 1, 1)]
(* n1, n2: vertices of the two curves *)
Crv(ty, n1, n2, w, st) ==
  LET p == w = "periodic"  seg(n) == IF p THEN n \div st[2] ELSE Divd(n - 4, st[2]) + 1
  IN [n |-> "Curves", txt |-> "\"" \o ty \o "\" [" \o ToString(n1) \o " " \o ToString(n2) \o "] \"" \o w \o "\"", needP |-> TRUE, short |-> FALSE, byP |-> FALSE,
      cnt |-> IF ty = "linear" THEN Cnt(2, n1 + n2, n1 + n2, 1, 1)
              ELSE IF Relaxed THEN Cnt(2, -1, n1 + n2, 1, 1)
              ELSE Cnt(2, seg(n1) + seg(n2) + (IF p THEN 0 ELSE 2), n1 + n2, 1, 1)]
Pr(n, txt, needP, short, c) == [n |-> n, txt |-> txt, needP |-> needP, short |-> short, byP |-> FALSE, cnt |-> c]
Knots(n) == CASE n = 6 -> "[0 0 0 1 1 1]" [] n = 7 -> "[0 0 0 0.5 1 1 1]" [] n = 8 -> "[0 0 0 0 1 1 1 1]" [] n = 9 -> "[0 0 0 0 0.5 1 1 1 1]" [] n = 5 -> "[0 0 0.5 1 1]" [] OTHER -> "[0 1]"
Nu(nu, uo, ku, nv, vo, kv) == Pr("NuPatch", ToString(nu) \o " " \o ToString(uo) \o " " \o Knots(ku) \o " 0 1 " \o ToString(nv) \o " " \o ToString(vo) \o " " \o Knots(kv) \o " 0 1",
      FALSE, ku < nu + uo \/ kv < nv + vo, Cnt((nu - uo + 1) * (nv - vo + 1), (nu - uo + 2) * (nv - vo + 2), nu * nv, (nu - uo + 2) * (nv - vo + 2), (nu - uo + 2) * (nv - vo + 2)))
Prims(st) ==
  { [n |-> nn, txt |-> "", needP |-> TRUE, short |-> FALSE, byP |-> TRUE, cnt |-> Cnt(1, 4, 4, 4, 4)] : nn \in {"Polygon", "Points"} }
  \cup { Pr("GeneralPolygon", "[4 3]", TRUE, FALSE, Cnt(1, 7, 7, 7, 7)),
         Pr("PointsPolygons", "[3 4] [0 1 2 2 1 3 5]", TRUE, FALSE, Cnt(2, 6, 6, 7, 7)),
         Pr("PointsPolygons", "[3 4] [0 1 2 2 1 3]", TRUE, TRUE, Cnt(2, 4, 4, 7, 7)),
         Pr("PointsGeneralPolygons", "[1 2] [3 3 4] [0 1 2 3 4 5 6 7 8 2]", FALSE, FALSE, Cnt(2, 9, 9, 10, 10)),
         Pr("PointsGeneralPolygons", "[1 2] [3 3] [0 1 2 3 4 5]", FALSE, TRUE, Cnt(2, 6, 6, 6, 6)),
         Pr("PointsGeneralPolygons", "[1 1] [3 3] [0 1 2 3 4]", FALSE, TRUE, Cnt(2, 5, 5, 6, 6)),
         Pr("SubdivisionMesh", "\"catmull-clark\" [4 3] [0 1 2 3 3 2 4]", FALSE, FALSE, Cnt(2, 5, 5, 7, 7)),
         Pr("SubdivisionMesh", "\"catmull-clark\" [4 3] [0 1 2 3 3 2]", FALSE, TRUE, Cnt(2, 4, 4, 7, 7)),
         Pr("SubdivisionMesh", "\"catmull-clark\" [4] [0 1 2 3] [\"crease\" \"hole\"] [2 1 1 0] [0 1 0] [2]", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)),
         Pr("SubdivisionMesh", "\"catmull-clark\" [4] [0 1 2 3] [\"crease\" \"hole\"] [2 1 1 0] [0 1] [2]", FALSE, TRUE, Cnt(1, 4, 4, 4, 4)),
         Pr("SubdivisionMesh", "\"catmull-clark\" [4] [0 1 2 3] [\"crease\" \"hole\"] [2 1 1] [0 1 0] [2]", FALSE, TRUE, Cnt(1, 4, 4, 4, 4)),
         Pr("SubdivisionMesh", "\"catmull-clark\" [4] [0 1 2 3] [\"crease\" \"hole\"] [2 1 1 0] [0 1 0] []", FALSE, TRUE, Cnt(1, 4, 4, 4, 4)),
         Pr("Patch", "\"bilinear\"", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)), Pr("Patch", "\"bicubic\"", FALSE, FALSE, Cnt(1, 4, 16, 4, 4)),
         Pr("Sphere", "1 -1 1 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)), Pr("Cone", "1 1 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)), Pr("Torus", "1 0.5 0 360 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)),
         Pr("Cylinder", "1 -1 1 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)), Pr("Disk", "0 1 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)), Pr("Paraboloid", "1 0 1 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)),
         Pr("Hyperboloid", "1 0 0 1 1 1 360", FALSE, FALSE, Cnt(1, 4, 4, 4, 4)),
         Pr("TrimCurve", "[1] [3] [0 0 0 0.5 1 1 1] [0] [1] [4] [0 1 1 0] [0 0 1 1] [1 1 1 1]", FALSE, FALSE, Cnt(1, 1, 1, 1, 1)),
         Pr("TrimCurve", "[1] [3] [0 0 0 0.5 1 1] [0] [1] [4] [0 1 1 0] [0 0 1 1] [1 1 1 1]", FALSE, TRUE, Cnt(1, 1, 1, 1, 1)),
         Pr("TrimCurve", "[1] [3] [0 0 0 0.5 1 1 1] [0] [1] [4] [0 1 1 0] [0 0 1] [1 1 1 1]", FALSE, TRUE, Cnt(1, 1, 1, 1, 1)),
         Pr("TrimCurve", "[2] [3] [0 0 0 0.5 1 1 1] [0] [1] [4] [0 1 1 0] [0 0 1 1] [1 1 1 1]", FALSE, TRUE, Cnt(1, 1, 1, 1, 1)),
         Pr("TrimCurve", "[1] [3] [0 0 0 0.5 1 1 1] [0] [] [4] [0 1 1 0] [0 0 1 1] [1 1 1 1]", FALSE, TRUE, Cnt(1, 1, 1, 1, 1)),
         Pr("ColorSamples", "[1 0 0 0 1 0 0 0 1] [1 0 0 0 1 0 0 0]", FALSE, TRUE, Cnt(1, 1, 1, 1, 1)),
         Nu(3, 3, 6, 3, 3, 6), Nu(4, 3, 7, 4, 4, 8), Nu(5, 4, 9, 3, 2, 5), Nu(4, 3, 6, 3, 3, 6), Nu(3, 3, 6, 4, 3, 6), Nu(4, 4, 8, 5, 4, 9) }
  \cup { PMesh(ty, nu, uw, nv, vw, st) : ty \in {"bilinear"}, nu \in {2, 3}, uw \in {"periodic", "nonperiodic"}, nv \in {3, 5}, vw \in {"periodic", "nonperiodic"} }
  \cup { PMesh(ty, nu, uw, nv, vw, st) : ty \in {"bicubic"}, nu \in {6, 7}, uw \in {"periodic", "nonperiodic"}, nv \in {4, 12}, vw \in {"periodic", "nonperiodic"} }
  \cup { Crv(ty, n1, n2, w, st) : ty \in {"linear", "cubic"}, n1 \in {4, 7}, n2 \in {6, 12}, w \in {"periodic", "nonperiodic"} }
Classes == {"constant", "uniform", "varying", "vertex", "facevarying", "facevertex"}
Types == {<<"float", 1>>, <<"point", 1>>, <<"color", 1>>, <<"string", 1>>, <<"float[2]", 2>>}    \* name, values stored per element where that matters

-----------------------------------------------------------------------------
Here == scopes[1]
OkScope(S) == S = {} \/ Here \in S \/ Here = "Any"
Emit1(text, ok) == out' = Append(out, [t |-> text, ok |-> ok])
Room == ~done /\ Len(out) < MaxLen
Init == scopes = <<(IF Relaxed THEN "Any" ELSE "BeginEnd")>> /\ steps = <<<<3, 3>>>> /\ out = <<>> /\ done = FALSE

(* Inside an inline archive the block structure is not tracked: what it means is    *)
(* only known when it is read.                                                       *)
Opens == [Frame |-> {"BeginEnd", "Archive"}, World |-> {"BeginEnd", "Frame", "Archive"}, Attribute |-> NoMotion, Transform |-> Everywhere \ {"Motion"}, Solid |-> NoMotion,
          Object |-> (Everywhere \ {"Motion", "Object"}), Motion |-> Everywhere \ {"Motion"}, Archive |-> {}]
BeginText == [Frame |-> "FrameBegin 1", World |-> "WorldBegin", Attribute |-> "AttributeBegin", Transform |-> "TransformBegin", Solid |-> "SolidBegin \"union\"", Object |-> "ObjectBegin \"1\"",
              Motion |-> "MotionBegin [0 1]", Archive |-> "ArchiveBegin \"arch\""]
KeepsBasis == {"Transform"}      \* a Transform block does not save the Basis
Begin == /\ Room /\ "block" \in Kinds /\ Len(scopes) < 9 /\ \E b \in Pick(IF Here = "Archive" THEN {"Archive"} ELSE Blocks) :
           LET ok == OkScope(Opens[b]) IN
           /\ Emit1(BeginText[b], ok)
           /\ IF ok /\ (Here # "Archive" \/ b = "Archive") THEN scopes' = <<b>> \o scopes ELSE UNCHANGED scopes
           /\ IF ok /\ b \notin KeepsBasis THEN steps' = <<steps[1]>> \o steps ELSE UNCHANGED steps
           /\ UNCHANGED done
(* ends are attempted in any scope; only the innermost block can be ended *)
NArch == Cardinality({k \in DOMAIN scopes : scopes[k] = "Archive"})
End == /\ Room /\ "block" \in Kinds /\ \E b \in Pick(IF Rand /\ Here \in Blocks THEN {Here, RandomElement(Blocks)} ELSE Blocks) :
           /\ Here = "Archive" => b = "Archive"        \* archives hold balanced blocks here
           /\ Here = "Any" => FALSE
           /\ LET ok == Here = b IN
              /\ Emit1(b \o "End", ok)
              /\ IF ok THEN scopes' = Tail(scopes) ELSE UNCHANGED scopes
              /\ IF ok /\ b \notin KeepsBasis THEN steps' = Tail(steps) ELSE UNCHANGED steps
              /\ UNCHANGED done
(* a balanced pair inside an archive *)
Pair == /\ Room /\ "block" \in Kinds /\ Here = "Archive" /\ \E b \in Pick(Blocks \ {"Archive"}) :
           /\ out' = out \o <<[t |-> BeginText[b], ok |-> TRUE], [t |-> b \o "End", ok |-> TRUE]>> /\ UNCHANGED <<scopes, steps, done>>
PlainReq == /\ Room /\ "plain" \in Kinds /\ \E n \in Pick(DOMAIN Plain) : Emit1(n \o " " \o Plain[n][2], OkScope(Plain[n][1])) /\ UNCHANGED <<scopes, steps, done>>
RECURSIVE Join(_, _, _)
Join(sl, vs, k) == IF k > Len(sl) THEN "" ELSE " " \o SlotText(sl[k], vs[k]) \o Join(sl, vs, k + 1)
RangedReq == /\ Room /\ "ranged" \in Kinds /\ \E n \in Pick(DOMAIN Ranged) : \E vs \in ValsOf(Ranged[n][2], Ranged[n][3]) :
               /\ Emit1(n \o Join(Ranged[n][2], vs, 1), OkScope(Ranged[n][1]) /\ Passes(Ranged[n][3], vs))
               /\ UNCHANGED <<scopes, steps, done>>
SetBasis == /\ Room /\ "basis" \in Kinds /\ \E u \in Pick({0, 1, 2, 3}), v \in Pick({1, 2, 3, 0}) :
              /\ Emit1("Basis \"bezier\" " \o ToString(u) \o " \"b-spline\" " \o ToString(v), u > 0 /\ v > 0)
              /\ (IF u > 0 /\ v > 0 THEN steps' = [steps EXCEPT ![1] = <<u, v>>] ELSE UNCHANGED steps)
              /\ UNCHANGED <<scopes, done>>
(* a parameter of class c, of type ty, with d values more than needed *)
ParText(c, ty, n, name) == "@" \o c \o " " \o ty \o " " \o name \o " " \o ToString(n) \o "@"
Prim == /\ Room /\ "prim" \in Kinds /\
          \E p \in Pick(Prims(steps[1])) : \E c \in Pick(Classes) : \E ty \in Pick(Types) : \E dd \in Pick(1..5) : \E hp \in Pick(1..5) : \E dpp \in Pick(1..6) :
          \E extra \in Pick(BOOLEAN) :
          LET d == <<-1, -1, 0, 0, 1>>[dd]   hasP == <<"P", "P", "P", "Pw", "none">>[hp]   dp == <<0, 0, 0, 0, 0, -1>>[dpp]
              scope == IF p.n = "ColorSamples" THEN Outer ELSE InWorld
              nP == IF p.cnt.vertex < 0 THEN 4 ELSE IF p.cnt.vertex + dp < 0 THEN 0 ELSE p.cnt.vertex + dp
              cnt == IF p.byP THEN Cnt(1, nP, nP, nP, nP) ELSE p.cnt
              want == cnt[c]
              have == IF want < 0 THEN 2 ELSE IF want + d < 0 THEN 0 ELSE want + d
              unchecked == Here = "Archive" /\ p.n \in {"PatchMesh", "Curves"}
              plain == p.n \in {"TrimCurve", "ColorSamples"}
              okP == IF hasP = "none" THEN ~p.needP ELSE (unchecked \/ p.byP \/ nP >= p.cnt.vertex)
              okX == ~extra \/ unchecked \/ want < 0 \/ have >= want
              ok == OkScope(scope) /\ ~p.short /\ (plain \/ (okP /\ okX))
          IN /\ Emit1(p.n \o " " \o p.txt \o (IF plain THEN "" ELSE
                        (IF hasP = "none" THEN "" ELSE " " \o ParText("vertex", IF hasP = "P" THEN "point" ELSE "hpoint", nP, hasP)) \o
                        (IF extra THEN " " \o ParText(c, ty[1], have, "x") ELSE "")), ok)
             /\ UNCHANGED <<scopes, steps, done>>
Stop == /\ ~done /\ out # <<>> /\ (Rand => Len(out) >= MaxLen) /\ done' = TRUE /\ UNCHANGED <<scopes, steps, out>>
Next == Begin \/ End \/ Pair \/ PlainReq \/ RangedReq \/ SetBasis \/ Prim \/ Stop

-----------------------------------------------------------------------------
(* what the specification itself guarantees *)
TypeOK == /\ \A k \in DOMAIN scopes : scopes[k] \in Blocks \cup {"BeginEnd", "Any"}
          /\ scopes[Len(scopes)] \in {"BeginEnd", "Any"} /\ Len(steps) >= 1
Nesting == /\ \A k \in 1..(Len(scopes) - 1) : scopes[k] = "World" => \A j \in (k+1)..Len(scopes) : scopes[j] # "World" \/ \E m \in (k+1)..j : scopes[m] = "Archive" \/ scopes[Len(scopes)] = "Any"
           /\ Here = "Motion" => Len(scopes) > 1
StepsOK == \A k \in DOMAIN steps : steps[k][1] > 0 /\ steps[k][2] > 0
Emit == done => PrintT("@@" \o ToJson(out))
=============================================================================
