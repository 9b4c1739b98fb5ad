--------------------------- MODULE TextureLookup ---------------------------
(* Texture lookups.  The plane is covered by an image as its wrap modes say; a lookup   *)
(* gives a weighted mean of the texels around a point, over about the area asked for.     *)
(* Images are made of blocks of one colour, so that the mean is known for every even        *)
(* weighting: the colour of the block around the point, or the mean of the blocks that        *)
(* meet there, as long as the area stays within them.  Channels beyond those of the image       *)
(* have the value asked for to fill them.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Bs,        \* numbers and sizes of blocks
          Ncs, Sides,    \* numbers of channels; sides of the area of a lookup, in texels
          Top, MaxLook, Rand
VARIABLES img, wrap, looks, phase
vars == <<img, wrap, looks, phase>>
Modes == {"periodic", "clamp", "black"}
Pick(S) == IF Rand /\ Len(looks) >= 0 THEN {RandomElement(S)} ELSE S
Abs(a) == IF a < 0 THEN -a ELSE a

At(i, n, mode) == IF i \in 0..(n - 1) THEN i ELSE CASE mode = "periodic" -> i % n [] mode = "clamp" -> (IF i < 0 THEN 0 ELSE n - 1) [] mode = "black" -> -1
Zero == [c \in 1..img.nc |-> 0]
Block(i, j) == LET a == At(i, img.nx, wrap[1]) b == At(j, img.ny, wrap[2]) IN IF a < 0 \/ b < 0 THEN Zero ELSE img.px[b + 1][a + 1]
(* 4 nx ny times the value at a place: the middle of block b, moved by off texels, its lower *)
(* edge, or the mean over all blocks where the area is many periods of the image wide          *)
Near(p, n) == IF p.wide THEN [k \in 1..2 * n |-> (k - 1) % n] ELSE [k \in 1..2 * n |-> IF p.edge /\ k > n THEN p.b - 1 ELSE p.b]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Value(l) == LET X == Near(l.x, img.nx) Y == Near(l.y, img.ny) IN
  [c \in 1..img.nc |-> SumTo([i \in 1..2 * img.nx |-> SumTo([j \in 1..2 * img.ny |-> Block(X[i], Y[j])[c]], 2 * img.ny)], 2 * img.nx)]
(* what a lookup of n channels from channel ch on gives *)
Result(l) == [k \in 1..(IF l.colour THEN 3 ELSE 1) |-> IF l.ch + k <= img.nc THEN [fill |-> FALSE, v |-> Value(l)[l.ch + k]] ELSE [fill |-> TRUE, v |-> 0]]
(* the area and the blur of a lookup stay within the blocks around it, or are much wider *)
Reach(side, blur) == 2 * side + 3 * blur + 4
Fits(p, side, blur, n, size, mode, lerp) ==
  IF p.wide THEN mode = "periodic" /\ side >= 2 * n * size /\ n \in {1, 2, 4} /\ size \in {8, 16, 32, 64}
  ELSE 2 * (Reach(side, blur) + Abs(p.off)) <= size /\ (p.edge => (size % 8 = 0 \/ (blur = 0 /\ lerp = 0 /\ side = 0)))
Places(n, size) == {[b |-> b, edge |-> e, off |-> o, wide |-> w] : b \in (-2 * n)..(3 * n), e \in BOOLEAN, o \in {-2, -1, 0, 1, 2}, w \in BOOLEAN}

Init == img = [nx |-> 0, ny |-> 0, bx |-> 0, by |-> 0, nc |-> 0, px |-> <<>>] /\ wrap = <<"clamp", "clamp">> /\ looks = <<>> /\ phase = "image"
Image == phase = "image" /\ \E nx \in Pick(Ns) : \E ny \in Pick(Ns) : \E bx \in Pick(Bs) : \E by \in Pick(Bs) : \E nc \in Pick(Ncs) : \E ws \in Pick(Modes) : \E wt \in Pick(Modes) :
  \E p \in IF Rand THEN {TLCEval([y \in 1..ny |-> TLCEval([x \in 1..nx |-> TLCEval([c \in 1..nc |-> RandomElement(0..(Top + 0 * Len(looks)))])])])} ELSE [1..ny -> [1..nx -> [1..nc -> 0..Top]]] :
    img' = [nx |-> nx, ny |-> ny, bx |-> bx, by |-> by, nc |-> nc, px |-> p] /\ wrap' = <<ws, wt>> /\ phase' = "look" /\ UNCHANGED looks
Look == phase = "look" /\ Len(looks) < MaxLook /\
  \E x \in Pick(Places(img.nx, img.bx)) : \E y \in Pick(Places(img.ny, img.by)) : \E form \in Pick({"point", "quad", "st"}) : \E ax \in Pick(Sides) : \E ay \in Pick(Sides) :
  \E bl \in Pick(0..2) : \E ch \in Pick(0..4) : \E col \in Pick(BOOLEAN) : \E fill \in Pick(0..2) : \E lerp \in Pick(0..2) : \E k \in Pick({2, 3, 5}) :
    LET fx == [x EXCEPT !.off = IF x.edge THEN 0 ELSE @, !.wide = @ /\ form = "quad"] fy == [y EXCEPT !.off = IF y.edge THEN 0 ELSE @, !.wide = @ /\ form = "quad"]
        sx == IF fx.wide THEN k * img.nx * img.bx ELSE IF form = "quad" THEN ax ELSE 0 sy == IF fy.wide THEN k * img.ny * img.by ELSE IF form = "quad" THEN ay ELSE 0
    IN IF Fits(fx, sx, bl, img.nx, img.bx, wrap[1], lerp) /\ Fits(fy, sy, bl, img.ny, img.by, wrap[2], lerp) /\ sx <= 8 * (sy + 1) /\ sy <= 8 * (sx + 1)
       THEN /\ looks' = Append(looks, [x |-> fx, y |-> fy, form |-> form, ax |-> sx, ay |-> sy, blur |-> bl, ch |-> ch, colour |-> col, fill |-> fill, lerp |-> lerp])
            /\ UNCHANGED <<img, wrap, phase>>
       ELSE UNCHANGED vars
Finish == phase = "look" /\ Len(looks) > MaxLook \div 2 /\ phase' = "done" /\ UNCHANGED <<img, wrap, looks>>
Next == Image \/ Look \/ Finish
Spec == Init /\ [][Next]_vars

(* a lookup stays within the range of the texels *)
InRange == \A k \in DOMAIN looks : \A c \in 1..img.nc : Value(looks[k])[c] >= 0 /\ Value(looks[k])[c] <= 4 * img.nx * img.ny * Top
(* periodic images repeat, clamped ones go on *)
Repeats == \A k \in DOMAIN looks : LET l == looks[k] IN
    /\ wrap[1] = "periodic" => Value([l EXCEPT !.x.b = @ + img.nx]) = Value(l)
    /\ wrap[2] = "periodic" => Value([l EXCEPT !.y.b = @ - img.ny]) = Value(l)
    /\ (wrap[1] = "clamp" /\ l.x.b > img.nx /\ ~l.x.wide) => Value([l EXCEPT !.x.b = @ + 1]) = Value(l)
    /\ (wrap[2] = "black" /\ l.y.b < 0 /\ ~l.y.wide) => Value(l) = Zero
Emit == IF phase = "done" THEN PrintT("@@" \o ToJson([img |-> img, wrap |-> wrap, looks |-> [k \in DOMAIN looks |-> [q |-> looks[k], r |-> Result(looks[k])]]])) ELSE TRUE
=============================================================================
