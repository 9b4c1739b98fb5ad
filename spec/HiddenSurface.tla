--------------------------- MODULE HiddenSurface ---------------------------
(* What the image is: at each sample point the surfaces covering it, sorted by   *)
(* depth, are composited from back to front; a pixel is the average of its       *)
(* samples.  Surfaces are axis aligned rectangles of constant colour and opacity  *)
(* facing the camera, added in any order; the state keeps, per sample, the list    *)
(* of surfaces covering it, sorted by depth.  All quantities are exact integers:   *)
(* lengths in 16ths of a pixel, colours and opacities in quarters.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W, H, NX, NY,      \* pixels and samples per pixel
          MaxLayers, Rand, Mattes, Opaque

Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
Edges == {16*k + e : k \in 0..W, e \in {0, 5, 11}}
EdgesY == {16*k + e : k \in 0..H, e \in {0, 5, 11}}
Depths == 1..9
Quarters == 0..4

VARIABLES scene,    \* Seq of layers in the order they were added
          hits,     \* sample -> Seq of layer indices, nearest first
          done
vars == <<scene, hits, done>>

Samples == {<<x, y, i, j>> : x \in 0..(W-1), y \in 0..(H-1), i \in 0..(NX-1), j \in 0..(NY-1)}
SX(s) == 16*NX*s[1] + 16*s[3] + 8      \* times 1/(16 NX)
SY(s) == 16*NY*s[2] + 16*s[4] + 8
Covers(l, s) == /\ SX(s) > l.x0*NX /\ SX(s) < l.x1*NX /\ SY(s) > l.y0*NY /\ SY(s) < l.y1*NY

Insert(q, k, sc) == LET n == Cardinality({i \in DOMAIN q : sc[q[i]].z < sc[k].z})
                    IN SubSeq(q, 1, n) \o <<k>> \o SubSeq(q, n+1, Len(q))

Init == scene = <<>> /\ hits = [s \in Samples |-> <<>>] /\ done = FALSE

Colours == IF Rand THEN Quarters \X Quarters \X Quarters ELSE {<<4, 2, 1>>, <<0, 3, 4>>}
Opacities == IF Opaque THEN {<<4, 4, 4>>}
             ELSE IF Rand THEN {<<4,4,4>>, <<2,2,2>>, <<1,1,1>>, <<3,3,3>>, <<2,4,1>>, <<0,2,4>>, <<0,0,0>>} ELSE {<<4,4,4>>, <<2,1,4>>}

Add == /\ ~done /\ Len(scene) < MaxLayers
       /\ \E x0 \in Pick({e \in Edges : e < 16*W}), y0 \in Pick({e \in EdgesY : e < 16*H}) :
          \E x1 \in Pick({e \in Edges : e >= x0 + 5}), y1 \in Pick({e \in EdgesY : e >= y0 + 5}) :
          \E z \in Pick(Depths \ {scene[i].z : i \in DOMAIN scene}), c \in Pick(Colours), o \in IF Rand /\ RandomElement(1..2) = 1 THEN {<<4,4,4>>} ELSE Pick(Opacities),
             m \in Pick(IF Mattes THEN {FALSE, FALSE, TRUE} ELSE {FALSE}) :
          LET l == [x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1, z |-> z, c |-> c, o |-> o, m |-> m]
              sc == Append(scene, l)
          IN /\ scene' = sc
             /\ hits' = [s \in Samples |-> IF Covers(l, s) THEN Insert(hits[s], Len(sc), sc) ELSE hits[s]]
       /\ UNCHANGED done
Finish == ~done /\ scene /= <<>> /\ (Rand => Len(scene) = MaxLayers \/ RandomElement(1..8) = 1) /\ done' = TRUE /\ UNCHANGED <<scene, hits>>
Next == Add \/ Finish

-----------------------------------------------------------------------------
(* Composite of the hits of a sample in channel ch: colour and opacity as          *)
(* numerators over 4^(Len+1) (colour) and 4^Len (opacity).                          *)
RECURSIVE Comp(_, _)
Comp(q, ch) ==
   IF q = <<>> THEN [c |-> 0, o |-> 0, d |-> 1]
   ELSE LET b == Comp(Tail(q), ch)  l == scene[Head(q)]  o == l.o[ch]
        IN [c |-> b.c * (4 - o) + (IF l.m THEN 0 ELSE o * l.c[ch] * b.d),
            o |-> b.o * (4 - o) + (IF l.m THEN 0 ELSE o * b.d),
            d |-> 4 * b.d]
D == 4^MaxLayers
Colour(s, ch) == LET r == Comp(hits[s], ch) IN r.c * (D \div r.d)     \* over 4*D
Opacity(s, ch) == LET r == Comp(hits[s], ch) IN r.o * (D \div r.d)    \* over D
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + Sum(f, S \ {s})
PixSamples(x, y) == {s \in Samples : s[1] = x /\ s[2] = y}
Pixel(x, y) == LET P == PixSamples(x, y) IN
   [c |-> [ch \in 1..3 |-> Sum([s \in P |-> Colour(s, ch)], P)],
    o |-> [ch \in 1..3 |-> Sum([s \in P |-> Opacity(s, ch)], P)],
    n |-> Cardinality({s \in P : hits[s] /= <<>>})]
Image == [k \in 1..(W*H) |-> Pixel((k-1) % W, (k-1) \div W)]

(* Depths, one per sample: the layers whose opacity reaches the threshold in every channel. *)
Solid(q, t) == SelectSeq(q, LAMBDA k : \A ch \in 1..3 : scene[k].o[ch] >= t[ch])
Zs(q, t) == LET s == Solid(q, t) IN [i \in DOMAIN s |-> scene[s[i]].z]
Thresholds == {<<4,4,4>>, <<2,2,2>>, <<1,1,1>>, <<2,4,1>>}
FirstSample(x, y) == CHOOSE s \in Samples : s[1] = x /\ s[2] = y /\ s[3] = 0 /\ s[4] = 0

-----------------------------------------------------------------------------
Sorted == \A s \in Samples : \A i, j \in DOMAIN hits[s] : i < j => scene[hits[s][i]].z < scene[hits[s][j]].z
Complete == \A s \in Samples : {hits[s][i] : i \in DOMAIN hits[s]} = {k \in DOMAIN scene : Covers(scene[k], s)}
Bounded == \A s \in Samples, ch \in 1..3 : Opacity(s, ch) \in 0..D /\ Colour(s, ch) \in 0..4*Opacity(s, ch)
(* nothing behind an opaque surface contributes *)
Opq(k) == scene[k].o = <<4,4,4>>
OpaqueHides == \A s \in Samples : \A i \in DOMAIN hits[s] : Opq(hits[s][i]) =>
   \A ch \in 1..3 : Comp(SubSeq(hits[s], 1, i), ch).c * 4^(Len(hits[s]) - i) = Comp(hits[s], ch).c
Emit == done => PrintT("@@" \o ToJson([w |-> W, h |-> H, nx |-> NX, ny |-> NY, d |-> D, scene |-> scene, image |-> Image,
            zs |-> IF NX*NY = 1 THEN [k \in 1..(W*H) |-> LET q == hits[FirstSample((k-1) % W, (k-1) \div W)] IN
                                       [a |-> Zs(q, <<4,4,4>>), b |-> Zs(q, <<2,2,2>>), c |-> Zs(q, <<2,4,1>>), n |-> Len(q)]]
                   ELSE <<>>]))
=============================================================================
