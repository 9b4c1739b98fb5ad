---------------------------- MODULE Reconstruct ----------------------------
(* From samples to pixels: a pixel is the weighted mean of all samples within the     *)
(* support of the pixel filter around its centre, also those beyond the edges of the   *)
(* image, of the crop window and of the bucket the pixel is computed in.  Filters are   *)
(* even functions of the distance in x and y: the state of a pixel is the sum of the     *)
(* samples at each distance, so that one sum serves every filter of that width.           *)
(* Samples are at the centres of a grid of NX x NY cells per pixel; surfaces are           *)
(* rectangles of cells.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, H,           \* pixels
          NX, NY,         \* samples per pixel
          FX, FY,         \* the width of the filter, in pixels
          MaxRects, Rand
VARIABLES rects, crop, phase
vars == <<rects, crop, phase>>
Pick(S) == IF Rand /\ Len(rects) >= 0 THEN {RandomElement(S)} ELSE S
Range(f) == {f[k] : k \in DOMAIN f}
Abs(a) == IF a < 0 THEN -a ELSE a
MX == (FX \div 2 + 1) * NX      \* cells beyond the edge of the image
MY == (FY \div 2 + 1) * NY
IX == (-MX)..(W * NX + MX - 1)
IY == (-MY)..(H * NY + MY - 1)

Nearest(rs, i, j) == LET in == {k \in DOMAIN rs : rs[k].x0 <= i /\ i < rs[k].x1 /\ rs[k].y0 <= j /\ j < rs[k].y1}
                     IN IF in = {} THEN 0 ELSE CHOOSE k \in in : \A m \in in : rs[m].z >= rs[k].z
(* twice the distance of a cell from the centre of a pixel, in cells *)
DX(i, x) == 2 * i + 1 - NX * (2 * x + 1)
DY(j, y) == 2 * j + 1 - NY * (2 * y + 1)
SupX(x) == {i \in IX : Abs(DX(i, x)) <= NX * FX}
SupY(y) == {j \in IY : Abs(DY(j, y)) <= NY * FY}
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + Total(f, S \ {s})
Cells(x, y, a, b) == {<<i, j>> \in SupX(x) \X SupY(y) : Abs(DX(i, x)) = a /\ Abs(DY(j, y)) = b}
Dists(n, f) == {d \in 0..(n * f) : d % 2 = (n + 1) % 2}
Terms(seen, x, y) ==
  LET sx == SupX(x) sy == SupY(y) IN
  {t \in {LET cs == {<<i, j>> \in {i \in sx : Abs(DX(i, x)) = a} \X {j \in sy : Abs(DY(j, y)) = b} : seen[i][j] # 0}
         IN [a |-> a, b |-> b, n |-> Cardinality(cs), c |-> [q \in 1..3 |-> Total([c \in cs |-> rects[seen[c[1]][c[2]]].c[q]], cs)]]
         : a \in Dists(NX, FX), b \in Dists(NY, FY)} : t.n > 0}
Seen == TLCEval([i \in IX |-> TLCEval([j \in IY |-> Nearest(rects, i, j)])])
Image == LET seen == Seen IN [y \in 1..H |-> [x \in 1..W |-> Terms(seen, x - 1, y - 1)]]

Init == rects = <<>> /\ crop = <<0, W - 1, 0, H - 1>> /\ phase = "in"
Crop == phase = "in" /\ rects = <<>> /\ \E x0 \in Pick(0..(W - 1)) : \E x1 \in Pick(x0..(W - 1)) : \E y0 \in Pick(0..(H - 1)) : \E y1 \in Pick(y0..(H - 1)) :
  crop' = <<x0, x1, y0, y1>> /\ UNCHANGED <<rects, phase>>
Add == phase = "in" /\ Len(rects) < MaxRects /\ \E x0 \in Pick(IX) : \E x1 \in Pick((x0 + 1)..(W * NX + MX)) : \E y0 \in Pick(IY) : \E y1 \in Pick((y0 + 1)..(H * NY + MY)) :
  \E z \in Pick((1..9) \ {rects[k].z : k \in DOMAIN rects}) : \E r \in Pick(0..4) : \E g \in Pick(0..4) : \E b \in Pick(0..4) :
  rects' = Append(rects, [x0 |-> x0, x1 |-> x1, y0 |-> y0, y1 |-> y1, z |-> z, c |-> <<r, g, b>>]) /\ UNCHANGED <<crop, phase>>
Finish == phase = "in" /\ rects # <<>> /\ phase' = "done" /\ UNCHANGED <<rects, crop>>
Next == Crop \/ Add \/ Finish
Spec == Init /\ [][Next]_vars

(* every sample of the support counts exactly once, whatever the pixel *)
Whole == \A x \in 0..(W - 1), y \in 0..(H - 1) :
   /\ Cardinality(SupX(x)) = (IF (NX * FX) % 2 = NX % 2 THEN NX * FX ELSE NX * FX + 1)
   /\ \A i \in SupX(x) : \E k \in SupX(x) : DX(k, x) = -DX(i, x)
   /\ \A i \in SupX(x) : Abs(DX(i, x)) \in Dists(NX, FX)
   /\ \A j \in SupY(y) : Abs(DY(j, y)) \in Dists(NY, FY)
(* the samples of a pixel are where the pixel is *)
Own == \A x \in 0..(W - 1) : {i \in IX : i >= NX * x /\ i < NX * (x + 1)} \subseteq SupX(x)
Emit == IF phase = "done" THEN PrintT("@@" \o ToJson([w |-> W, h |-> H, nx |-> NX, ny |-> NY, fx |-> FX, fy |-> FY, rects |-> rects, crop |-> crop, image |-> Image])) ELSE TRUE
=============================================================================
