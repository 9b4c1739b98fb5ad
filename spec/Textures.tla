----------------------------- MODULE Textures -----------------------------
(* Texture files.  An image is turned into a pyramid: level 0 is the image, and each   *)
(* further level has half the size (rounded up); a texel of it is the weighted mean of  *)
(* the texels around its position in the level below.  Beyond its edges an image goes    *)
(* on as its wrap modes say.  The filter is an even function of the distance in s and t;  *)
(* a texel of level 1 is described by the sum of the texels at each distance, so that      *)
(* one sum serves every filter of that width.  For the box filter all levels are given.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ws, Hs,        \* sizes of images
          Ncs,           \* numbers of channels
          Fs,            \* widths of filters
          Top,           \* values of texels are 0..Top
          MaxChain, Rand
VARIABLES img, wrap, filt, phase
vars == <<img, wrap, filt, phase>>
Modes == {"periodic", "clamp", "black"}
Pick(S) == IF Rand /\ phase # "" THEN {RandomElement(S)} ELSE S
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* the texel of an image of n texels found at place i, or -1 for black *)
At(i, n, mode) == IF i \in 0..(n - 1) THEN i ELSE CASE mode = "periodic" -> i % n [] mode = "clamp" -> (IF i < 0 THEN 0 ELSE n - 1) [] mode = "black" -> -1
Half(n) == (n + 1) \div 2
(* the taps of a filter of width f: an odd number around a texel, or an even number around the middle of two *)
Count(n, f) == IF n % 2 = 1 THEN Max(2 * (f \div 2) + 1, 3) ELSE Max(2 * ((f + 1) \div 2), 2)
Tap(x, m, i) == 2 * x - (m - 1) \div 2 + i
Dist(m, i) == Abs(2 * i - (m - 1))                \* twice the distance of a tap, in texels
Zero(nc) == [c \in 1..nc |-> 0]
Texel(im, i, j, ws, wt) == LET a == At(i, im.w, ws) b == At(j, im.h, wt) IN IF a < 0 \/ b < 0 THEN Zero(im.nc) ELSE im.px[b + 1][a + 1]
RECURSIVE Total(_, _, _)
Total(f, S, nc) == IF S = {} THEN Zero(nc) ELSE LET s == CHOOSE s \in S : TRUE r == Total(f, S \ {s}, nc) IN [c \in 1..nc |-> f[s][c] + r[c]]
Taps(im, x, y, mx, my, I, J) == Total([t \in I \X J |-> Texel(im, Tap(x, mx, t[1]), Tap(y, my, t[2]), wrap[1], wrap[2])], I \X J, im.nc)

(* level 1: for each texel the sums of the texels at each distance *)
Terms(x, y) == LET mx == Count(img.w, filt[1]) my == Count(img.h, filt[2]) IN
  {[a |-> d, b |-> e, s |-> Taps(img, x, y, mx, my, {i \in 0..(mx - 1) : Dist(mx, i) = d}, {j \in 0..(my - 1) : Dist(my, j) = e})]
    : d \in {Dist(mx, i) : i \in 0..(mx - 1)}, e \in {Dist(my, j) : j \in 0..(my - 1)}}
Level1 == IF img.w = 1 /\ img.h = 1 THEN <<>> ELSE [y \in 1..Half(img.h) |-> [x \in 1..Half(img.w) |-> Terms(x - 1, y - 1)]]
(* all levels for the box filter of width 2: values over the denominator den *)
Below(im) == LET mx == Count(im.w, 2) my == Count(im.h, 2) IN
  [w |-> Half(im.w), h |-> Half(im.h), nc |-> im.nc, den |-> im.den * mx * my,
   px |-> TLCEval([y \in 1..Half(im.h) |-> TLCEval([x \in 1..Half(im.w) |-> Taps(im, x - 1, y - 1, mx, my, 0..(mx - 1), 0..(my - 1))])])]
RECURSIVE Chain(_, _)
Chain(im, n) == IF n = 0 \/ (im.w = 1 /\ im.h = 1) THEN <<im>> ELSE <<im>> \o Chain(Below(im), n - 1)
RECURSIVE Sizes(_, _)
Sizes(w, h) == IF w = 1 /\ h = 1 THEN <<<<1, 1>>>> ELSE <<<<w, h>>>> \o Sizes(Half(w), Half(h))

Init == img = [w |-> 0, h |-> 0, nc |-> 0, den |-> 1, px |-> <<>>] /\ wrap = <<"clamp", "clamp">> /\ filt = <<2, 2>> /\ phase = "in"
Choose == phase = "in" /\ img.w = 0 /\ \E w \in Pick(Ws) : \E h \in Pick(Hs) : \E nc \in Pick(Ncs) : \E ws \in Pick(Modes) : \E wt \in Pick(Modes) : \E fx \in Pick(Fs) : \E fy \in Pick(Fs) :
  /\ img' = [w |-> w, h |-> h, nc |-> nc, den |-> 1, px |-> <<>>] /\ wrap' = <<ws, wt>> /\ filt' = <<fx, fy>> /\ UNCHANGED phase
(* the rows of the image arrive one after the other *)
Row == phase = "in" /\ img.w > 0 /\ Len(img.px) < img.h /\
  \E r \in IF Rand THEN {TLCEval([x \in 1..img.w |-> TLCEval([c \in 1..img.nc |-> RandomElement(0..(Top + 0 * Len(img.px)))])])} ELSE [1..img.w -> [1..img.nc -> 0..Top]] :
    img' = [img EXCEPT !.px = Append(@, r)] /\ UNCHANGED <<wrap, filt, phase>>
Make == phase = "in" /\ img.w > 0 /\ Len(img.px) = img.h /\ phase' = "done" /\ UNCHANGED <<img, wrap, filt>>
Next == Choose \/ Row \/ Make
Spec == Init /\ [][Next]_vars

Done == phase = "done"
(* the pyramid ends with one texel, and every level is made of texels of the one below *)
Pyramid == Done => LET s == Sizes(img.w, img.h) IN s[Len(s)] = <<1, 1>> /\ \A k \in 2..Len(s) : s[k] = <<Half(s[k - 1][1]), Half(s[k - 1][2])>>
(* taps lie evenly around the texel *)
Even == Done => \A n \in {img.w, img.h}, f \in Fs : LET m == Count(n, f) IN \A x \in 0..(Half(n) - 1) :
     Tap(x, m, 0) + Tap(x, m, m - 1) = (IF n % 2 = 1 THEN 4 * x ELSE 4 * x + 1)
(* means: an image of one value stays so, unless black comes in; nothing leaves the range of the values *)
Mean == Done => \A k \in DOMAIN Chain(img, MaxChain) : LET l == Chain(img, MaxChain)[k] IN
     \A y \in 1..l.h, x \in 1..l.w, c \in 1..l.nc : l.px[y][x][c] >= 0 /\ l.px[y][x][c] <= l.den * Top /\
       ((wrap[1] # "black" /\ wrap[2] # "black" /\ \A b \in 1..img.h, a \in 1..img.w : img.px[b][a][c] = img.px[1][1][c]) => l.px[y][x][c] = l.den * img.px[1][1][c])
Emit == IF Done THEN PrintT("@@" \o ToJson([img |-> img, wrap |-> wrap, filt |-> filt, sizes |-> Sizes(img.w, img.h), level1 |-> Level1, chain |-> Chain(img, MaxChain)])) ELSE TRUE
=============================================================================
