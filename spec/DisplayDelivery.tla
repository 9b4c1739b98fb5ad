-------------------------- MODULE DisplayDelivery --------------------------
(* What each display is sent.  A program sets options (image format, crop       *)
(* window, quantisation, displays), opens and closes frames and renders worlds.  *)
(* Rendering a world opens every display currently requested, delivers every     *)
(* pixel of the crop window to it, quantised as requested, and closes it.  The    *)
(* options in force outside a frame come back when the frame ends.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, MaxWorlds, MaxRes

Pick(S) == {RandomElement(S)}
Flip == RandomElement({TRUE, FALSE})
INF == 1000000000
NoQ == <<0, 0, 0, 0, 0>>         \* zero, one, min, max, dither in quarters; one = 0 : floating point
Quants == {NoQ, <<0, 255, 0, 255, 0>>, <<0, 65535, 0, 65535, 0>>, <<0, 100, -50, 120, 0>>, <<0, 1000, -2000, 3000, 0>>,
           <<0, 4, 0, 1, 0>>, <<0, 7, 1, 300, 0>>, <<0, 200, -50, 200, 0>>, <<0, 256, 0, 256, 0>>, <<0, 128, -100, 128, 0>>, <<0, 200, -128, 127, 0>>, <<0, 300, -129, 127, 0>>, <<0, 70000, 0, 65536, 0>>, <<0, 40000, -9, 32768, 0>>, <<0, 40000, -32768, 32767, 0>>, <<0, 40000, -32769, 30000, 0>>, <<0, 255, 0, 255, 2>>, <<0, 100000, -100000, 100000, 0>>, <<0, 90000, 0, 100000, 2>>}
ParamQuants == Quants \cup {<<16, 235, 0, 255, 0>>, <<-8, 8, -100, 100, 0>>, <<10, 50, 12, 40, 2>>}
Modes == {"rgb", "rgba", "a", "z", "rgbz", "rgbaz", "Ci", "Oi", "aovf", "aovc"}
Aovs == {"Ci", "Oi", "aovf", "aovc"}

VARIABLES prog, st, saved, out, nworld, ndisp, done
vars == <<prog, st, saved, out, nworld, ndisp, done>>

Default == [w |-> 4, h |-> 3, crop |-> <<0, 16, 0, 16>>, q |-> NoQ, qz |-> NoQ, qa |-> [m \in Aovs |-> NoQ], bs |-> <<16, 16>>, disps |-> <<>>]
Init == prog = <<>> /\ st = Default /\ saved = <<>> /\ out = <<>> /\ nworld = 0 /\ ndisp = 0 /\ done = FALSE

Can == ~done /\ Len(prog) < MaxSteps
Do(op) == prog' = Append(prog, op)
Ceil16(n) == (n + 15) \div 16
CropX(s) == <<Ceil16(s.w * s.crop[1]), Ceil16(s.w * s.crop[2])>>
CropY(s) == <<Ceil16(s.h * s.crop[3]), Ceil16(s.h * s.crop[4])>>
NonEmpty(s) == CropX(s)[1] < CropX(s)[2] /\ CropY(s)[1] < CropY(s)[2]

SetFormat == \E w \in Pick(1..MaxRes), h \in Pick(1..MaxRes) : LET s == [st EXCEPT !.w = w, !.h = h] IN
    /\ NonEmpty(s) /\ st' = s /\ Do([op |-> "Format", w |-> w, h |-> h]) /\ UNCHANGED <<saved, out, nworld, ndisp>>
SetCrop == \E a \in Pick(0..12), b \in Pick(3..16), c \in Pick(0..12), d \in Pick(3..16) : LET s == [st EXCEPT !.crop = <<a, b, c, d>>] IN
    /\ a < b /\ c < d /\ NonEmpty(s) /\ st' = s /\ Do([op |-> "Crop", c |-> <<a, b, c, d>>]) /\ UNCHANGED <<saved, out, nworld, ndisp>>
SetQuant == \E what \in Pick({"rgba", "rgba", "z"} \cup Aovs), q \in Pick(Quants) :
    /\ st' = IF what = "rgba" THEN [st EXCEPT !.q = q] ELSE IF what = "z" THEN [st EXCEPT !.qz = q] ELSE [st EXCEPT !.qa[what] = q]
    /\ Do([op |-> "Quant", what |-> what, q |-> q]) /\ UNCHANGED <<saved, out, nworld, ndisp>>
SetBuckets == \E b \in Pick({<<16, 16>>, <<1, 1>>, <<2, 3>>, <<3, 2>>, <<4, 1>>, <<1, 5>>}) :
    st' = [st EXCEPT !.bs = b] /\ Do([op |-> "Buckets", b |-> b]) /\ UNCHANGED <<saved, out, nworld, ndisp>>
AddDisplay == \E mode \in Pick(Modes), plus \in Pick(IF st.disps = <<>> THEN {FALSE} ELSE {TRUE, TRUE, FALSE}), bad \in Pick(IF st.disps = <<>> THEN {FALSE} ELSE {FALSE, FALSE, FALSE, TRUE}),
      scan \in Pick({FALSE, TRUE}), rev \in Pick({FALSE, FALSE, TRUE}), ty \in Pick({0, 0, 0, 1}), pq \in Pick(ParamQuants), usepq \in Pick({FALSE, FALSE, TRUE}), extra \in Pick(0..3) :
    LET d == [name |-> "d" \o ToString(ndisp), mode |-> mode, scan |-> scan, rev |-> rev, ty |-> ty, pq |-> IF usepq THEN <<pq>> ELSE <<>>, extra |-> extra, bad |-> bad /\ plus]
    IN /\ ndisp < 6 /\ ndisp' = ndisp + 1
       /\ st' = [st EXCEPT !.disps = IF plus THEN Append(@, d) ELSE <<d>>]
       /\ Do([op |-> "Display", plus |-> plus, d |-> d]) /\ UNCHANGED <<saved, out, nworld>>
FrameBegin == saved = <<>> /\ saved' = <<st>> /\ Do([op |-> "FrameBegin", n |-> nworld + 1]) /\ UNCHANGED <<st, out, nworld, ndisp>>
FrameEnd == saved /= <<>> /\ st' = saved[1] /\ saved' = <<>> /\ Do([op |-> "FrameEnd"]) /\ UNCHANGED <<out, nworld, ndisp>>

-----------------------------------------------------------------------------
(* The picture: pixel (x,y) of world k, in quarters *)
Hole(k, x, y) == (x + 2*y + k) % 7 = 0
Col(k, x, y, ch) == IF Hole(k, x, y) THEN 0 ELSE ((3*x + 5*y + 7*ch + 4*k) % 9) - 2
Depth(k, x, y) == IF Hole(k, x, y) THEN INF ELSE 4 * (1 + ((x + 2*y) % 5))
Opa(k, x, y) == IF Hole(k, x, y) THEN 0 ELSE 4
Chan(mode, name, k, x, y) ==
   CASE mode = "Oi" -> Opa(k, x, y)
     [] mode = "aovf" -> 2 * Col(k, x, y, 0)
     [] mode = "aovc" -> (CASE name = "r" -> 2 * Col(k, x, y, 0) [] name = "g" -> Col(k, x, y, 1) [] OTHER -> -Col(k, x, y, 2))
     [] OTHER -> (CASE name = "a" -> Opa(k, x, y) [] name = "z" -> Depth(k, x, y)
                    [] name = "r" -> Col(k, x, y, 0) [] name = "g" -> Col(k, x, y, 1) [] OTHER -> Col(k, x, y, 2))

Names(mode) == CASE mode = "rgb" -> <<"r", "g", "b">> [] mode = "rgba" -> <<"a", "r", "g", "b">> [] mode = "a" -> <<"a">> [] mode = "z" -> <<"z">>
                 [] mode = "rgbz" -> <<"r", "g", "b", "z">> [] mode = "rgbaz" -> <<"a", "r", "g", "b", "z">> [] mode = "aovf" -> <<"r">> [] OTHER -> <<"r", "g", "b">>
QuantOf(s, d) == IF d.pq /= <<>> THEN <<d.pq[1][1], d.pq[1][2], d.pq[1][3], d.pq[1][4], d.pq[1][5]>>
                 ELSE IF d.mode \in Aovs THEN s.qa[d.mode] ELSE IF d.mode \in {"z", "rgbz", "rgbaz"} THEN s.qz ELSE s.q
(* 1 float 2 unsigned32 3 signed32 4 unsigned16 5 signed16 6 unsigned8 7 signed8 *)
TypeOf(q) == IF q[2] = 0 THEN 1
             ELSE IF q[3] >= 0 THEN (IF q[4] <= 255 THEN 6 ELSE IF q[4] <= 65535 THEN 4 ELSE 2)
             ELSE IF q[3] >= -128 /\ q[4] <= 127 THEN 7 ELSE IF q[3] >= -32768 /\ q[4] <= 32767 THEN 5 ELSE 3
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
(* round half away from zero; either neighbour is accepted for an exact tie *)
RoundLo(n, d) == LET f == n \div d IN IF 2*(n - f*d) > d THEN f + 1 ELSE f
RoundHi(n, d) == LET f == n \div d IN IF 2*(n - f*d) >= d THEN f + 1 ELSE f
Value(q, v) == IF q[2] = 0 THEN <<v, v>>
               ELSE IF v = INF THEN IF q[2] > q[1] THEN <<q[4], q[4]>> ELSE <<q[3], q[4]>>
               ELSE LET n == 4 * q[1] + v * (q[2] - q[1]) IN      \* quarters
                    <<Clamp(RoundLo(n, 4), q[3], q[4]), Clamp(RoundHi(n + q[5], 4), q[3], q[4])>>
RevSeq(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]
Session(s, d, k) ==
   LET q == QuantOf(s, d)  asked == Names(d.mode)  fm == IF d.rev THEN RevSeq(asked) ELSE asked
       x0 == CropX(s)[1]  x1 == CropX(s)[2]  y0 == CropY(s)[1]  y1 == CropY(s)[2]  W == x1 - x0  H == y1 - y0
   IN [name |-> d.name, w |-> W, h |-> H, ox |-> x0, oy |-> y0, fw |-> s.w, fh |-> s.h, scan |-> d.scan, asked |-> asked, fmt |-> fm,
       atype |-> TypeOf(q), ftype |-> IF d.ty /= 0 THEN d.ty ELSE TypeOf(q), quant |-> q[2] /= 0, extra |-> d.extra,
       pix |-> [i \in 1..(W*H) |-> [c \in DOMAIN fm |-> Value(q, Chan(d.mode, fm[c], k, x0 + ((i-1) % W), y0 + ((i-1) \div W)))]]]
Good(ds) == SelectSeq(ds, LAMBDA d : ~d.bad)
World == /\ nworld < MaxWorlds /\ st.disps /= <<>>
         /\ nworld' = nworld + 1
         /\ LET g == Good(st.disps) IN out' = out \o [i \in DOMAIN g |-> Session(st, g[i], nworld + 1)]
         /\ Do([op |-> "World", k |-> nworld + 1, w |-> st.w, h |-> st.h]) /\ UNCHANGED <<st, saved, ndisp>>
Finish == ~done /\ nworld > 0 /\ Len(prog) >= 3 /\ done' = TRUE /\ UNCHANGED <<prog, st, saved, out, nworld, ndisp>>
Next == \/ Can /\ UNCHANGED done /\ (SetFormat \/ SetCrop \/ SetQuant \/ SetBuckets \/ AddDisplay \/ FrameBegin \/ FrameEnd \/ World \/ World)
        \/ (Len(prog) >= MaxSteps \/ nworld = MaxWorlds) /\ Finish

-----------------------------------------------------------------------------
(* every session covers its crop window, inside the frame; values respect the quantisation range *)
SessionsOK == \A i \in DOMAIN out : LET s == out[i] IN
    /\ s.w >= 1 /\ s.h >= 1 /\ s.ox >= 0 /\ s.oy >= 0 /\ s.ox + s.w <= s.fw /\ s.oy + s.h <= s.fh
    /\ Len(s.pix) = s.w * s.h /\ Len(s.asked) = Len(s.fmt)
    /\ \A p \in DOMAIN s.pix : \A c \in DOMAIN s.fmt : s.pix[p][c][1] <= s.pix[p][c][2]
FramesOK == Len(saved) <= 1
Emit == done => PrintT("@@" \o ToJson([prog |-> IF saved = <<>> THEN prog ELSE Append(prog, [op |-> "FrameEnd"]), out |-> out]))
=============================================================================
