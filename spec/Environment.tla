----------------------------- MODULE Environment -----------------------------
(* Environment maps: an image of all directions, as the six faces of a cube or by           *)
(* longitude and latitude.  A lookup in a direction gives the colour of the region of one      *)
(* colour (block) which the direction points to, or the mean of the regions that meet there.      *)
(*   cube       seen from its middle, looking along the axis of a face, "up" is y for the sides,   *)
(*              -z for +y and z for -y, "right" follows (left handed axes); the faces may show     *)
(*              more than a quarter turn (field of view)                                           *)
(*   latlong    longitude from -x by way of -y, x and y around z; latitude from z to -z             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Bs, Ncs, Top, Dir,   \* blocks, their sizes, channels, values, components of directions
          MaxLook, Rand
VARIABLES img, looks, phase
vars == <<img, looks, phase>>
Pick(S) == IF Rand /\ Len(looks) >= 0 THEN {RandomElement(S)} ELSE S
Opt(S) == IF Rand THEN Pick(S) ELSE {CHOOSE e \in S : TRUE}
Abs(a) == IF a < 0 THEN -a ELSE a
Neg(v) == [i \in 1..3 |-> -v[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* faces in the order of MakeCubeFaceEnvironment: px nx py ny pz nz *)
Axis == <<<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>>>
Up(f) == CASE f = 3 -> <<0, 0, -1>> [] f = 4 -> <<0, 0, 1>> [] OTHER -> <<0, 1, 0>>
Right(f) == Cross(Up(f), Axis[f])
FaceOf(d) == CHOOSE f \in 1..6 : \A g \in 1..6 : Dot(d, Axis[g]) <= Dot(d, Axis[f])
(* position on a face of n blocks whose half width is k/4 of its distance, in quarters of a block *)
Along(q, a, n, k) == (4 * n * (4 * q + k * a)) \div (2 * k * a)
CubeAt(d) == LET f == FaceOf(d) a == Dot(d, Axis[f]) IN [face |-> f, x |-> Along(Dot(d, Right(f)), a, img.nx, img.k), y |-> Along(-Dot(d, Up(f)), a, img.ny, img.k)]
Inner(p) == p % 4 \in {1, 2}
(* the direction is well inside a block: between a quarter and three quarters of it *)
CubeOk(d) == /\ \E f \in 1..6 : \A g \in 1..6 : g # f => Dot(d, Axis[g]) < Dot(d, Axis[f])
             /\ Inner(CubeAt(d).x) /\ Inner(CubeAt(d).y)
CubeValue(d) == LET p == CubeAt(d) IN [c \in 1..img.nc |-> 4 * img.px[p.face][p.y \div 4 + 1][p.x \div 4 + 1][c]]
(* longitude and latitude are in eighths of a block; on an edge two blocks meet *)
Lower(p, n) == ((p - (IF p % 8 = 0 THEN 1 ELSE 0)) \div 8) % n
LatOk(q) == q[1] % 8 \in {0, 2, 3, 4, 5, 6} /\ q[2] % 8 \in {0, 2, 3, 4, 5, 6} /\ q[2] > 0 /\ q[2] < 8 * img.ny
LatValue(q) == LET i == Lower(q[1], img.nx) j == Lower(q[2], img.ny) u == (q[1] \div 8) % img.nx v == q[2] \div 8
                   B(x, y, c) == img.px[1][y + 1][x + 1][c]
               IN [c \in 1..img.nc |-> B(i, j, c) + B(u, j, c) + B(i, v, c) + B(u, v, c)]
Value(l) == IF img.cube THEN CubeValue(l.d) ELSE LatValue(l.d)
Result(l) == [k \in 1..(IF l.colour THEN 3 ELSE 1) |-> IF l.ch + k <= img.nc THEN [fill |-> FALSE, v |-> Value(l)[l.ch + k]] ELSE [fill |-> TRUE, v |-> 0]]

Comp == IF img.cube THEN -Dir..Dir ELSE {0}
Init == img = [cube |-> FALSE, nx |-> 1, ny |-> 1, b |-> 0, nc |-> 0, k |-> 4, px |-> <<>>] /\ looks = <<>> /\ phase = "image"
Image == phase = "image" /\ \E cube \in Pick(BOOLEAN) : \E nx \in Pick(Ns) : \E ny \in Pick(Ns) : \E b \in Pick(Bs) : \E nc \in Pick(Ncs) : \E k \in Pick(4..6) :
  \E p \in {TLCEval([f \in 1..(IF cube THEN 6 ELSE 1) |-> TLCEval([y \in 1..ny |-> TLCEval([x \in 1..nx |-> TLCEval([c \in 1..nc |-> IF Rand THEN RandomElement(0..(Top + 0 * Len(looks))) ELSE (f + 6 * (x + nx * y)) % (Top + 1)])])])])} :
    img' = [cube |-> cube, nx |-> nx, ny |-> ny, b |-> b, nc |-> nc, k |-> k, px |-> p] /\ phase' = "look" /\ UNCHANGED looks
Look == phase = "look" /\ Len(looks) < MaxLook /\
  \E x \in Pick(Comp) : \E y \in Pick(Comp) : \E z \in Pick(Comp) : \E lon \in Pick(IF img.cube THEN {0} ELSE 0..(8 * img.nx)) : \E lat \in Pick(IF img.cube THEN {0} ELSE 0..(8 * img.ny)) :
  \E form \in Opt({"point", "quad"}) : \E bl \in Opt(0..1) : \E ch \in Opt(0..4) : \E col \in Opt(BOOLEAN) : \E fill \in Opt(0..2) :
    LET d == IF img.cube THEN <<x, y, z>> ELSE <<lon, lat>> ok == IF img.cube THEN CubeOk(d) ELSE LatOk(d) IN
    IF ok THEN looks' = Append(looks, [d |-> d, form |-> form, blur |-> bl, ch |-> ch, colour |-> col, fill |-> fill]) /\ UNCHANGED <<img, phase>>
    ELSE Rand /\ UNCHANGED vars
Finish == phase = "look" /\ Len(looks) > MaxLook \div 2 /\ phase' = "done" /\ UNCHANGED <<img, looks>>
Next == Image \/ Look \/ Finish
Spec == Init /\ [][Next]_vars

(* the six faces cover all directions; right, up and forward are left handed axes on each *)
Frames == \A f \in 1..6 : Dot(Up(f), Axis[f]) = 0 /\ Cross(Axis[f], Right(f)) = Up(f)
InFace == img.cube => \A k \in DOMAIN looks : LET p == CubeAt(looks[k].d) IN p.x \div 4 \in 0..(img.nx - 1) /\ p.y \div 4 \in 0..(img.ny - 1)
(* opposite directions fall on opposite faces *)
Opposite == img.cube => \A k \in DOMAIN looks : LET f == FaceOf(looks[k].d) g == FaceOf(Neg(looks[k].d)) IN (f + 1) \div 2 = (g + 1) \div 2 /\ f # g
(* a longitude one turn further is the same *)
Turn == ~img.cube => \A k \in DOMAIN looks : LatValue(looks[k].d) = LatValue(<<looks[k].d[1] + 8 * img.nx, looks[k].d[2]>>)
Emit == IF phase = "done" THEN PrintT("@@" \o ToJson([img |-> img, looks |-> [k \in DOMAIN looks |-> [q |-> looks[k], r |-> Result(looks[k])]]])) ELSE TRUE
=============================================================================
