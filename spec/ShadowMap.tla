------------------------------ MODULE ShadowMap ------------------------------
(* Shadow maps.  A light is a camera anywhere in the world, turned and perhaps mirrored,      *)
(* with a parallel or a perspective view of NX by NY cells.  Occluders are rectangles of cells    *)
(* at a depth.  shadow() at a world point, asked under any other camera in any frame, tells how     *)
(* much of it lies behind the nearest occluder seen by the light in that direction: 1 behind, 0        *)
(* in front, nothing there or outside the view, and in between from a lower to a higher bias.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, MaxDepth, MaxOcc, MaxAsk, Biases, Rand
VARIABLES light, occ, asks, phase
vars == <<light, occ, asks, phase>>
Pick(S) == IF Rand /\ Len(asks) >= 0 /\ Len(occ) >= 0 THEN {RandomElement(S)} ELSE S
Opt(S) == IF Rand THEN Pick(S) ELSE {CHOOSE e \in S : TRUE}
Units == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Frames == {F \in Units \X Units \X Units : Dot(F[1], F[2]) = 0 /\ Dot(F[1], F[3]) = 0 /\ Dot(F[2], F[3]) = 0}
(* a point of the view, cx and cy halves of cells from its middle, at depth dm / m: its world coordinates times m Scale *)
Scale == 8
World(m, cx, cy, dm) == LET u == IF light.persp THEN cx * dm ELSE m * cx * light.wide v == IF light.persp THEN cy * dm ELSE m * cy * light.wide IN
  [k \in 1..3 |-> m * Scale * light.pos[k] + u * light.frame[1][k] + v * light.frame[2][k] + Scale * dm * light.frame[3][k]]
Covers(o, i, j) == i >= o.x0 /\ i <= o.x1 /\ j >= o.y0 /\ j <= o.y1
Depths(i, j) == {occ[k].d : k \in {n \in DOMAIN occ : Covers(occ[n], i, j)}}
Min(S) == CHOOSE m \in S : \A n \in S : m <= n
(* twice the depth asked for is odd, so that no occluder is at the same depth; biases are in halves *)
(* the result as a fraction <<numerator, denominator>>                                               *)
Dark(q) ==
  LET D == IF q.i \in 0..(light.nx - 1) /\ q.j \in 0..(light.ny - 1) THEN Depths(q.i, q.j) ELSE {} IN
  IF D = {} THEN <<0, 1>>
  ELSE LET e == q.d2 - 2 * Min(D) IN
    IF e >= q.b1 /\ e > q.b0 THEN <<1, 1>> ELSE IF e <= q.b0 THEN <<0, 1>> ELSE <<e - q.b0, q.b1 - q.b0>>
Centre(i, n) == 2 * i + 1 - n

Init == light = [frame |-> <<>>, pos |-> <<0, 0, 0>>, persp |-> FALSE, wide |-> 1, nx |-> 0, ny |-> 0] /\ occ = <<>> /\ asks = <<>> /\ phase = "light"
Light == phase = "light" /\ \E F \in Opt(Frames) : \E x \in Opt(-5..5) : \E y \in Opt(-5..5) : \E z \in Opt(-5..5) : \E p \in Pick(BOOLEAN) : \E w \in Opt(1..3) : \E nx \in Pick(Sizes) : \E ny \in Pick(Sizes) :
   light' = [frame |-> F, pos |-> <<x, y, z>>, persp |-> p, wide |-> w, nx |-> nx, ny |-> ny] /\ phase' = "scene" /\ UNCHANGED <<occ, asks>>
Put == phase = "scene" /\ Len(occ) < MaxOcc /\ \E x0 \in Pick(0..(light.nx - 1)) : \E y0 \in Pick(0..(light.ny - 1)) : \E x1 \in Pick(0..(light.nx - 1)) : \E y1 \in Pick(0..(light.ny - 1)) : \E d \in Pick(1..MaxDepth) :
   occ' = Append(occ, [x0 |-> IF x0 < x1 THEN x0 ELSE x1, x1 |-> IF x0 < x1 THEN x1 ELSE x0, y0 |-> IF y0 < y1 THEN y0 ELSE y1, y1 |-> IF y0 < y1 THEN y1 ELSE y0, d |-> d])
   /\ UNCHANGED <<light, asks, phase>>
Shade == phase = "scene" /\ Len(occ) > 0 /\ phase' = "ask" /\ UNCHANGED <<light, occ, asks>>
Ask == phase = "ask" /\ Len(asks) < MaxAsk /\ \E i \in Pick(-1..light.nx) : \E j \in Pick(-1..light.ny) : \E d \in Pick(0..MaxDepth) : \E f \in Opt(1..3) : \E b0 \in Pick(Biases) : \E b1 \in Pick(Biases) : \E form \in Opt({"point", "quad"}) : \E bl \in Opt(0..1) :
   asks' = Append(asks, [i |-> i, j |-> j, d2 |-> 2 * d + 1, frame |-> f, b0 |-> b0, b1 |-> b0 + b1, form |-> form, blur |-> bl]) /\ UNCHANGED <<light, occ, phase>>
Finish == phase = "ask" /\ Len(asks) = MaxAsk /\ phase' = "done" /\ UNCHANGED <<light, occ, asks>>
Next == Light \/ Put \/ Shade \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars

Range == \A k \in DOMAIN asks : LET r == Dark(asks[k]) IN r[1] >= 0 /\ r[1] <= r[2] /\ r[2] > 0
(* a point is not lit more by being further away; nothing darkens what is in front of everything *)
Deeper == \A k \in DOMAIN asks : LET q == asks[k] a == Dark(q) b == Dark([q EXCEPT !.d2 = @ + 2]) IN a[1] * b[2] <= b[1] * a[2]
InFront == \A k \in DOMAIN asks : (\A n \in DOMAIN occ : 2 * occ[n].d > asks[k].d2) => Dark(asks[k])[1] = 0
(* what the light sees does not depend on where it is or how it is turned: the points are its own view's *)
Rigid == phase # "light" => \A k \in DOMAIN asks : LET q == asks[k] P == [c \in 1..3 |-> World(2, Centre(q.i, light.nx), Centre(q.j, light.ny), q.d2)[c] - 2 * Scale * light.pos[c]] IN Dot(P, light.frame[3]) = Scale * q.d2
Emit == IF phase = "done" THEN PrintT("@@" \o ToJson([light |-> light,
   occ |-> [k \in DOMAIN occ |-> LET o == occ[k] X0 == 2 * o.x0 - light.nx X1 == 2 * o.x1 + 2 - light.nx Y0 == 2 * o.y0 - light.ny Y1 == 2 * o.y1 + 2 - light.ny IN <<World(1, X0, Y0, o.d), World(1, X1, Y0, o.d), World(1, X0, Y1, o.d), World(1, X1, Y1, o.d)>>],
   asks |-> [k \in DOMAIN asks |-> LET q == asks[k] IN [q |-> q,
      p |-> World(2, Centre(q.i, light.nx), Centre(q.j, light.ny), q.d2),   \* in 1 / (2 Scale)
      r |-> Dark(q)]]])) ELSE TRUE
=============================================================================
