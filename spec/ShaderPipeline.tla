--------------------------- MODULE ShaderPipeline ---------------------------
(* The stages of shading.  A primitive's displacement shader moves its points, then the surface      *)
(* shader gives colours at the moved points, then the atmosphere shader changes them, and when the       *)
(* image is complete the imager shader changes each pixel.  Each can ask for variables of the others by    *)
(* name: it gets them if that shader is there and has such a variable, and keeps what it had otherwise.    *)
(* A shader's vector is given in the coordinates of the place where the shader is chosen.            *)
(* Displacement, surface and atmosphere are attributes, the imager is an option.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, MaxWorlds, MaxPrims, W, H, Rand
VARIABLES prog, st, opt, stack, world, prims, pics, done
vars == <<prog, st, opt, stack, world, prims, pics, done>>
Pick(S) == IF Rand /\ Len(prog) >= 0 THEN {RandomElement(S)} ELSE S
Opt(S) == IF Rand THEN Pick(S) ELSE {CHOOSE e \in S : TRUE}
Dice(n) == IF Rand THEN RandomElement(IF Len(prog) >= 0 THEN 1..n ELSE {}) = 1 ELSE TRUE

NoDisp == [on |-> FALSE, var |-> FALSE, d |-> <<0, 0, 0>>, m |-> 0, s |-> 1]
NoAtm == [on |-> FALSE, b |-> 0, o |-> 0]
NoImg == [on |-> FALSE, c |-> 0]
Start == [s |-> 1, x |-> 0, y |-> 0, surf |-> [var |-> FALSE, a |-> 0, t |-> 1, s |-> 1], disp |-> NoDisp, atm |-> NoAtm]
Init == prog = <<>> /\ st = Start /\ opt = NoImg /\ stack = <<>> /\ world = FALSE /\ prims = <<>> /\ pics = <<>> /\ done = FALSE
Can == ~done /\ Len(prog) < MaxSteps
Do(c) == prog' = Append(prog, c)
Attr(f, c) == st' = f /\ Do(c) /\ UNCHANGED <<opt, stack, world, prims, pics, done>>
Free == UNCHANGED <<opt, world, prims, pics, done>>

Surface == \E v \in Pick(BOOLEAN) : \E a \in Pick(1..3) : \E t \in Opt({0, 1, 2, 3}) :
             LET q == IF t = 0 THEN 0 ELSE 1 IN Attr([st EXCEPT !.surf = [var |-> v, a |-> a, t |-> q, s |-> st.s]], [op |-> "Surface", var |-> v, a |-> a, t |-> q])
Displacement == \E v \in Pick({TRUE, TRUE, FALSE}) : \E x \in Pick((-3)..3) : \E y \in Opt((-3)..3) : \E z \in Opt({-10, 0, 10}) : \E m \in Opt(0..3) :
                  Attr([st EXCEPT !.disp = [on |-> TRUE, var |-> v, d |-> <<st.s * x, st.s * y, z>>, m |-> m, s |-> st.s]], [op |-> "Displacement", var |-> v, d |-> <<x, y, z>>, m |-> m])
Atmosphere == \E b \in Pick(1..3) : \E o \in Opt(0..1) : Attr([st EXCEPT !.atm = [on |-> TRUE, b |-> b, o |-> o]], [op |-> "Atmosphere", b |-> b, o |-> o])
Translate == \E x \in Pick((-2)..2) : \E y \in Opt((-2)..2) : Attr([st EXCEPT !.x = @ + st.s * x, !.y = @ + st.s * y], [op |-> "Translate", x |-> x, y |-> y])
Scale == st.s = 1 /\ Attr([st EXCEPT !.s = 2], [op |-> "Scale"])
Imager == ~world /\ \E c \in Pick(1..3) : opt' = [on |-> TRUE, c |-> c] /\ Do([op |-> "Imager", c |-> c]) /\ UNCHANGED <<st, stack, world, prims, pics, done>>

(* the shader called null does nothing *)
Null == \E w \in Pick({"Displacement", "Atmosphere", "Imager"}) :
          /\ (w = "Imager") => ~world
          /\ st' = (IF w = "Displacement" THEN [st EXCEPT !.disp = NoDisp] ELSE IF w = "Atmosphere" THEN [st EXCEPT !.atm = NoAtm] ELSE st)
          /\ opt' = (IF w = "Imager" THEN NoImg ELSE opt)
          /\ Do([op |-> "Null", w |-> w]) /\ UNCHANGED <<stack, world, prims, pics, done>>

Push(k) == stack' = Append(stack, [k |-> k, st |-> st, opt |-> opt])
Top == stack[Len(stack)]
Begin == \E k \in Pick({"Attribute", "Attribute", "Transform"}) : Len(stack) < 5 /\ Push(k) /\ Do([op |-> k \o "Begin"]) /\ Free /\ UNCHANGED st
FrameBegin == ~world /\ stack = <<>> /\ Push("Frame") /\ Do([op |-> "FrameBegin"]) /\ Free /\ UNCHANGED st
WorldBegin == ~world /\ Len(pics) < MaxWorlds /\ (\A i \in DOMAIN stack : stack[i].k = "Frame") /\ Push("World") /\ world' = TRUE /\ Do([op |-> "WorldBegin"]) /\ UNCHANGED <<st, opt, prims, pics, done>>
End == /\ stack # <<>> /\ Top.k # "World"
       /\ st' = IF Top.k = "Transform" THEN [st EXCEPT !.s = Top.st.s, !.x = Top.st.x, !.y = Top.st.y] ELSE Top.st
       /\ opt' = IF Top.k = "Frame" THEN Top.opt ELSE opt
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Do([op |-> Top.k \o "End"]) /\ UNCHANGED <<world, prims, pics, done>>

Rects == {<<x, y, x + w, y + h>> : x \in (-2)..(W - 1), y \in (-2)..(H - 1), w \in 1..5, h \in 1..4}
Prim == /\ world /\ Len(prims) < MaxPrims
        /\ \E r \in Pick(Rects) :
             LET n == Len(prims) + 1 d == st.disp.d
                 p == [st |-> st, n |-> n, z |-> 50 - n + d[3],
                       at |-> <<st.s * r[1] + st.x + d[1], st.s * r[2] + st.y + d[2], st.s * r[3] + st.x + d[1], st.s * r[4] + st.y + d[2]>>]
             IN prims' = Append(prims, p) /\ Do([op |-> "Prim", r |-> r, n |-> n, s |-> st.s, ss |-> IF st.disp.on THEN st.disp.s ELSE st.surf.s, d |-> d])
        /\ UNCHANGED <<st, opt, stack, world, pics, done>>

(* the stages *)
Message(has, v, old) == IF has THEN <<1, v>> ELSE <<0, old>>
DispVar(p) == Message(p.st.disp.on /\ p.st.disp.var, p.st.disp.m + 3, -1)
SurfVar(p) == Message(p.st.surf.var, 2 * p.st.surf.a + DispVar(p)[2], -1)
SurfaceColour(p) == IF p.st.surf.t = 0 THEN <<0, 0, 0>> ELSE <<p.st.surf.a + 4 * DispVar(p)[1], DispVar(p)[2], p.z>>
(* what is transparent after the last stage is not seen; the atmosphere may make opaque what was not before *)
Visible(p) == p.st.surf.t = 1 \/ (p.st.atm.on /\ p.st.atm.o = 1)
AtmColour(p, c) == IF p.st.atm.on THEN <<c[1] + 16 * p.st.atm.b + 64 * SurfVar(p)[1] + 128 * DispVar(p)[1], c[2] + 16 * SurfVar(p)[2], c[3] + 128 * DispVar(p)[2] + p.z>> ELSE c
Imaged(c, alpha) == IF opt.on THEN <<c[1] + 256 * alpha + opt.c, c[2] + 512 * (1 - alpha), c[3] + 3 * opt.c>> ELSE c
In(p, x, y) == p.at[1] <= x /\ x < p.at[3] /\ p.at[2] <= y /\ y < p.at[4]
Pixel(x, y) == LET h == {i \in DOMAIN prims : Visible(prims[i]) /\ In(prims[i], x, y)} IN
   IF h = {} THEN Imaged(<<0, 0, 0>>, 0)
   ELSE LET p == prims[CHOOSE i \in h : \A j \in h : prims[i].z <= prims[j].z] IN Imaged(AtmColour(p, SurfaceColour(p)), 1)
WorldEnd == /\ world /\ Top.k = "World" /\ prims # <<>> /\ (Len(prims) = MaxPrims \/ Len(prog) > (MaxSteps * (Len(pics) + 1)) \div MaxWorlds \/ Dice(12))
            /\ pics' = Append(pics, TLCEval([i \in 1..(W * H) |-> Pixel((i - 1) % W, (i - 1) \div W)]))
            /\ st' = Top.st /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ world' = FALSE /\ prims' = <<>> /\ Do([op |-> "WorldEnd"]) /\ UNCHANGED <<opt, done>>
Finish == ~done /\ ~world /\ stack = <<>> /\ Len(pics) = MaxWorlds /\ done' = TRUE /\ UNCHANGED <<prog, st, opt, stack, world, prims, pics>>
(* the program need not be short when worlds are still to be made *)
More == ~done /\ Len(prog) < MaxSteps + 60
Next == \/ (Can /\ Surface) \/ (Dice(3) /\ Can /\ Displacement) \/ (Dice(4) /\ Can /\ Atmosphere) \/ (Dice(4) /\ Can /\ world /\ Translate) \/ (Dice(8) /\ Can /\ world /\ Scale) \/ (Dice(5) /\ Can /\ Imager) \/ (Dice(8) /\ Can /\ Null)
        \/ (Dice(4) /\ Can /\ world /\ Begin) \/ (Dice(5) /\ Can /\ FrameBegin) \/ ((Dice(3) \/ ~Can) /\ More /\ WorldBegin) \/ ((Dice(3) \/ ~Can) /\ More /\ End) \/ (More /\ Prim) \/ (More /\ WorldEnd) \/ Finish
Spec == Init /\ [][Next]_vars

FramesOK == stack = <<>> => ~world
Unchanged == done => \A p \in DOMAIN pics : Len(pics[p]) = W * H
Emit == done => PrintT("@@" \o ToJson([prog |-> prog, pics |-> pics]))
=============================================================================
