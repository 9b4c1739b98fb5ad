------------------------------- MODULE Motion -------------------------------
(* Motion blur.  A motion block gives a transformation or a primitive at several times; between two    *)
(* of them everything goes straight from one place to the next, before the first and after the last it     *)
(* stands still.  The shutter is open for a span of time, and the samples of a pixel see n equal parts of   *)
(* it, one sample each: a pixel shows, for each part, what is nearest there at some moment of that part.    *)
(* Primitives are upright rectangles moved and scaled, so that what a part of the shutter shows in a pixel   *)
(* is certain unless an edge goes through the pixel within that part.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, MaxPrims, W, H, Rand
VARIABLES prog, times, sh, ns, cur, stack, prims, done
vars == <<prog, times, sh, ns, cur, stack, prims, done>>
Pick(S) == IF Rand /\ Len(prog) >= 0 THEN {RandomElement(S)} ELSE S
Opt(S) == IF Rand THEN Pick(S) ELSE {CHOOSE e \in S : TRUE}
Dice(n) == IF Rand THEN RandomElement(IF Len(prog) >= 0 THEN 1..n ELSE {}) = 1 ELSE TRUE

TimeLists == {<<0, 1>>, <<0, 2>>, <<0, 1, 2>>, <<0, 1, 3>>, <<1, 2>>, <<0, 2, 3, 4>>, <<0, 1, 2, 3>>, <<-1, 0, 2, 3>>, <<-1, 0, 1>>, <<-1, 1, 2>>, <<0, 3>>}
Keys == DOMAIN times
Still == [k \in 1..4 |-> [s |-> 1, x |-> 0, y |-> 0, z |-> 0]]
Init == /\ prog = <<>> /\ stack = <<>> /\ prims = <<>> /\ done = FALSE /\ cur = Still
        /\ times = <<>> /\ sh = <<0, 0>> /\ ns = <<1, 1>>
Shutters == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>>, <<0, 3>>, <<1, 4>>, <<2, 3>>, <<-1, 0>>, <<-1, 1>>, <<-1, 3>>, <<0, 4>>}
Setup == /\ times = <<>>
         /\ times' \in (IF Rand THEN Pick(TimeLists) ELSE {<<0, 1>>}) /\ sh' \in (IF Rand THEN Pick(Shutters) ELSE {<<0, 1>>})
         /\ ns' \in (IF Rand THEN Pick({<<1, 1>>, <<2, 2>>, <<4, 2>>, <<3, 4>>, <<4, 4>>, <<1, 6>>, <<5, 5>>}) ELSE {<<2, 2>>})
         /\ UNCHANGED <<prog, cur, stack, prims, done>>
Do(c) == prog' = Append(prog, c)
Can == ~done /\ times # <<>> /\ Len(prog) < MaxSteps

Moves == {[x |-> x, y |-> y, z |-> z] : x \in (-4)..4, y \in (-3)..3, z \in {-2, 0, 0, 1}}
Shift(m, d) == [m EXCEPT !.x = @ + m.s * d.x, !.y = @ + m.s * d.y, !.z = @ + m.s * d.z]
Translate == Can /\ \E d \in Pick(Moves) : cur' = [k \in 1..4 |-> Shift(cur[k], d)] /\ Do([op |-> "Translate", d |-> d]) /\ UNCHANGED <<times, sh, ns, stack, prims, done>>
Scale == Can /\ cur[1].s = 1 /\ cur' = [k \in 1..4 |-> [cur[k] EXCEPT !.s = 2 * @]] /\ Do([op |-> "Scale"]) /\ UNCHANGED <<times, sh, ns, stack, prims, done>>
RandMove == /\ Can
            /\ \E a \in Pick(Moves) : \E b \in Pick(Moves) : \E c \in Pick(Moves) : \E e \in Pick(Moves) : \E w \in Opt(1..5) :
                 LET d == CASE w = 1 -> <<a, b, b, a>> [] w = 2 -> <<a, b, a, a>> [] OTHER -> <<a, b, c, e>> IN cur' = [k \in 1..4 |-> Shift(cur[k], d[k])] /\ Do([op |-> "MotionTranslate", d |-> SubSeq(d, 1, Len(times))])
            /\ UNCHANGED <<times, sh, ns, stack, prims, done>>
(* a moving scale: 1 or 2 at each key *)
RandScale == /\ Can /\ \A k \in Keys : cur[k].s = 1
             /\ \E a \in Pick(1..2) : \E b \in Pick(1..2) : \E c \in Pick(1..2) : \E e \in Pick(1..2) :
                  LET q == <<a, b, c, e>> IN cur' = [k \in 1..4 |-> [cur[k] EXCEPT !.s = q[k]]] /\ Do([op |-> "MotionScale", q |-> SubSeq(q, 1, Len(times))])
             /\ UNCHANGED <<times, sh, ns, stack, prims, done>>
Begin == Can /\ Len(stack) < 3 /\ \E b \in Pick({"Attribute", "Transform"}) : stack' = Append(stack, <<b, cur>>) /\ Do([op |-> b \o "Begin"]) /\ UNCHANGED <<times, sh, ns, cur, prims, done>>
End == ~done /\ stack # <<>> /\ cur' = stack[Len(stack)][2] /\ Do([op |-> stack[Len(stack)][1] \o "End"]) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<times, sh, ns, prims, done>>

Rects == {<<x, y, w, h, z>> : x \in (-1)..(W - 2), y \in (-1)..(H - 2), w \in 1..6, h \in 1..5, z \in 0..3}
(* twelfths; a primitive covers at least its inner rectangle and at most its outer one: for a disk (a      *)
(* point, as wide as the rectangle) the squares within it and around it                                      *)
At(m, r, disk) ==
   LET x0 == 12 * (m.s * r[1] + m.x) y0 == 12 * (m.s * r[2] + m.y) w == 12 * m.s * r[3] h == IF disk THEN w ELSE 12 * m.s * r[4] i == IF disk THEN w \div 6 ELSE 0
   IN [x0 |-> x0, x1 |-> x0 + w, y0 |-> y0, y1 |-> y0 + h, ix0 |-> x0 + i, ix1 |-> x0 + w - i, iy0 |-> y0 + i, iy1 |-> y0 + h - i, z |-> m.s * (r[5] + 60) + m.z]
Edges == {"x0", "x1", "y0", "y1", "ix0", "ix1", "iy0", "iy1", "z"}
Colours == 1..7
Prim == /\ Can /\ Len(prims) < MaxPrims
        /\ \E r \in Pick(Rects) : \E c \in Opt(Colours) : \E inst \in Opt({FALSE, FALSE, TRUE}) : \E disk \in Opt({FALSE, TRUE, FALSE, FALSE}) :
             prims' = Append(prims, [c |-> c, at |-> [k \in Keys |-> At(cur[k], r, disk)]]) /\ Do([op |-> "Prim", disk |-> disk, inst |-> inst, c |-> c, r |-> r])
        /\ UNCHANGED <<times, sh, ns, cur, stack, done>>
(* the primitive itself at each time; often it stays a while and goes back *)
MovePrim == /\ Can /\ Len(prims) < MaxPrims
            /\ \E c \in Opt(Colours) : \E disk \in Opt({FALSE, TRUE, FALSE, FALSE}) :
               \E a \in Pick(Rects) : \E b \in Pick(Rects) : \E e \in Pick(Rects) : \E f \in Pick(Rects) : \E w \in Opt(1..5) :
                 LET r == CASE w = 1 -> <<a, b, b, a>> [] w = 2 -> <<a, b, a, a>> [] OTHER -> <<a, b, e, f>> IN
                 prims' = Append(prims, [c |-> c, at |-> [k \in Keys |-> At(cur[k], r[k], disk)]]) /\ Do([op |-> "MotionPrim", disk |-> disk, c |-> c, r |-> SubSeq(r, 1, Len(times))])
            /\ UNCHANGED <<times, sh, ns, cur, stack, done>>

(* places are multiplied by 144n, times by n *)
N == ns[1] * ns[2]
T(j) == N * sh[1] + j * (sh[2] - sh[1])            \* moment j of 0..n, times n
Moments(j) == {T(j), T(j + 1)} \cup {N * times[k] : k \in {k \in Keys : N * times[k] > T(j) /\ N * times[k] < T(j + 1)}}
Mix(a, b, f, g) == (12 * (a * (g - f) + b * f)) \div (g \div N)        \* between a and b at f of g (g = N * difference of times, which divides 12)
Where(p, t) == LET K == Len(times) IN
   IF t <= N * times[1] THEN [c \in Edges |-> 12 * N * p.at[1][c]]
   ELSE IF t >= N * times[K] THEN [c \in Edges |-> 12 * N * p.at[K][c]]
   ELSE LET k == CHOOSE k \in 1..(K - 1) : N * times[k] <= t /\ t < N * times[k + 1] IN
        [c \in Edges |-> Mix(p.at[k][c], p.at[k + 1][c], t - N * times[k], N * (times[k + 1] - times[k]))]
(* what each part of the shutter shows of each primitive: its places at the moments *)
Parts == TLCEval([j \in 0..(N - 1) |-> [i \in DOMAIN prims |-> {Where(prims[i], t) : t \in Moments(j)}]])
U == 144 * N
Outside(P, x, y) == (\A q \in P : q.x1 <= U * x) \/ (\A q \in P : q.x0 >= U * (x + 1)) \/ (\A q \in P : q.y1 <= U * y) \/ (\A q \in P : q.y0 >= U * (y + 1))
Covers(P, x, y) == \A q \in P : q.ix0 <= U * x /\ q.ix1 >= U * (x + 1) /\ q.iy0 <= U * y /\ q.iy1 >= U * (y + 1)
Before(P, Q) == \A p \in P, q \in Q : p.z < q.z
Seen(P, x, y) == LET maybe == {i \in DOMAIN prims : ~Outside(P[i], x, y)}
                     sure == {i \in maybe : Covers(P[i], x, y)}
                 IN {prims[i].c : i \in {i \in maybe : \A q \in sure : ~Before(P[q], P[i])}} \cup (IF sure = {} THEN {0} ELSE {})
Bit(c, b) == (c \div (2 ^ b)) % 2
Min(S) == CHOOSE m \in S : \A e \in S : m <= e
Max(S) == CHOOSE m \in S : \A e \in S : m >= e
RECURSIVE Sum(_, _, _)
Sum(S, b, j) == IF j = N THEN <<0, 0>> ELSE LET r == Sum(S, b, j + 1) v == {IF b = 3 THEN (IF c = 0 THEN 0 ELSE 1) ELSE Bit(c, b) : c \in S[j]} IN <<Min(v) + r[1], Max(v) + r[2]>>
Image(parts) == [y \in 1..H |-> [x \in 1..W |-> LET S == TLCEval([j \in 0..(N - 1) |-> Seen(parts[j], x - 1, y - 1)]) IN [b \in 1..4 |-> Sum(S, b - 1, 0)]]]
Finish == /\ ~done /\ stack = <<>> /\ prims # <<>> /\ (Len(prims) = MaxPrims \/ Len(prog) >= MaxSteps) /\ done' = TRUE /\ UNCHANGED <<prog, times, sh, ns, cur, stack, prims>>
Next == Setup \/ (Dice(3) /\ Translate) \/ (Dice(8) /\ Scale) \/ (Dice(2) /\ RandMove) \/ (Dice(5) /\ RandScale) \/ (Dice(3) /\ Begin) \/ (Dice(2) /\ End) \/ (Dice(2) /\ Prim) \/ (Dice(2) /\ MovePrim)
        \/ (~Can /\ times # <<>> /\ End) \/ Finish
Spec == Init /\ [][Next]_vars

(* a shutter open for no time, or one that nothing moves in, shows each part the same *)
SharpOK == done /\ sh[1] = sh[2] => LET p == Parts IN \A j \in 0..(N - 1) : p[j] = p[0]
Emit == done => PrintT("@@" \o ToJson([prog |-> prog, times |-> times, shutter |-> sh, ns |-> ns, image |-> Image(Parts)]))
=============================================================================
