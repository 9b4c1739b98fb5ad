--------------------------- MODULE GraphicsState ---------------------------
(* The graphics state machine: the attributes and the transformation in force   *)
(* when a primitive is given, through nested frame, world, attribute and           *)
(* transform blocks, object instances, named coordinate systems and procedurals, whose *)
(* contents are rendered later, but as an attribute block in their place.  The emitted *)
(* picture says, for each pixel, which primitive is visible there; each primitive   *)
(* carries the state it was given in.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, MaxWorlds, MaxPrims, W, H, Spaces, Orients, Procs, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

(* affine maps of the plane: (x,y) -> (a x + b y + tx, c x + d y + ty) *)
Id == [a |-> 1, b |-> 0, c |-> 0, d |-> 1, tx |-> 0, ty |-> 0]
Mul(m, n) == [a |-> m.a*n.a + m.b*n.c, b |-> m.a*n.b + m.b*n.d, c |-> m.c*n.a + m.d*n.c, d |-> m.c*n.b + m.d*n.d,
              tx |-> m.a*n.tx + m.b*n.ty + m.tx, ty |-> m.c*n.tx + m.d*n.ty + m.ty]
Det(m) == m.a*m.d - m.b*m.c
ApplyX(m, x, y) == m.a*x + m.b*y + m.tx
ApplyY(m, x, y) == m.c*x + m.d*y + m.ty
Small(m) == \A v \in {m.a, m.b, m.c, m.d} : v <= 4 /\ v >= -4
Near(m) == \A v \in {m.tx, m.ty} : v <= 20 /\ v >= -20

VARIABLES prog, st, stack, cam, world, named, prims, pics, objs, nworld, done
vars == <<prog, st, stack, cam, world, named, prims, pics, objs, nworld, done>>
NoSpace == <<>>
Names == {"A", "B"}

InitState == [m |-> Id, col |-> 7, opa |-> 7, user |-> -1, k |-> 0, sm |-> Id, surf |-> 0, sides |-> 2, rev |-> FALSE]
Init == prog = <<>> /\ st = InitState /\ stack = <<>> /\ cam = Id /\ world = FALSE /\ named = [n \in Names |-> NoSpace]
        /\ prims = <<>> /\ pics = <<>> /\ objs = <<>> /\ nworld = 0 /\ done = FALSE
Can == ~done /\ Len(prog) < MaxSteps
Do(op) == prog' = Append(prog, op)
Keep(v) == UNCHANGED v
Top == IF stack = <<>> THEN [k |-> "none", s |-> InitState] ELSE stack[Len(stack)]

(* attributes *)
SetCol == \E c \in Pick(0..6) : st' = [st EXCEPT !.col = c] /\ Do([op |-> "Color", v |-> c]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
SetOpa == \E c \in Pick(0..6) : st' = [st EXCEPT !.opa = c] /\ Do([op |-> "Opacity", v |-> c]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
SetUser == \E c \in Pick(0..9) : st' = [st EXCEPT !.user = c] /\ Do([op |-> "User", v |-> c]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
SetSurf == \E c \in Pick(0..9), s \in Pick({1, 2}) : world /\ st' = [st EXCEPT !.k = c, !.sm = st.m, !.surf = s] /\ Do([op |-> "Surface", v |-> c, s |-> s]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
SetSides == \E n \in Pick({1, 2}) : Orients /\ st' = [st EXCEPT !.sides = n] /\ Do([op |-> "Sides", v |-> n]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
Rev == Orients /\ st' = [st EXCEPT !.rev = ~@] /\ Do([op |-> "ReverseOrientation"]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
Orient == \E o \in Pick({"inside", "outside", "lh", "rh"}) : LET neg == Det(st.m) * Det(cam) < 0 IN
    /\ Orients /\ world
    /\ st' = [st EXCEPT !.rev = CASE o = "inside" -> TRUE [] o = "outside" -> FALSE [] o = "lh" -> neg [] OTHER -> ~neg]
    /\ Do([op |-> "Orientation", v |-> o]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>

(* transformations; before the world they make up the camera *)
Elem == [op : {"Translate"}, x : -3..5, y : -3..5] \cup [op : {"Scale"}, x : {1, 2, -1}, y : {1, 2, -1}] \cup [op : {"Rotate"}, x : {90, 180, 270, -90}, y : {0}]
        \cup [op : {"Concat"}, x : {-1, 1, 2}, y : {-2, 3}]
MatOf(e) == CASE e.op = "Translate" -> [Id EXCEPT !.tx = e.x, !.ty = e.y] [] e.op = "Scale" -> [Id EXCEPT !.a = e.x, !.d = e.y]
              [] e.op = "Rotate" -> (CASE e.x = 180 -> [Id EXCEPT !.a = -1, !.d = -1] [] e.x = 90 -> [Id EXCEPT !.a = 0, !.b = -1, !.c = 1, !.d = 0] [] OTHER -> [Id EXCEPT !.a = 0, !.b = 1, !.c = -1, !.d = 0])
              [] OTHER -> [a |-> 0, b |-> e.x, c |-> 1, d |-> 0, tx |-> e.y, ty |-> 1]
Kinds == {"Translate", "Translate", "Scale", "Rotate", "Concat"}
Xform == \E k \in Pick(Kinds) : \E e \in Pick({e \in Elem : e.op = k}) :
    LET m == Mul(st.m, MatOf(e)) IN
    /\ Small(m) /\ Near(m) /\ st' = [st EXCEPT !.m = m] /\ Do(e) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
SetXform == \E k \in Pick(Kinds) : \E e \in Pick({e \in Elem : e.op = k}) :
    st' = [st EXCEPT !.m = MatOf(e)] /\ Do([op |-> "Transform", m |-> MatOf(e)]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
Ident == st' = [st EXCEPT !.m = Id] /\ Do([op |-> "Identity"]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>

InProc == \E i \in DOMAIN stack : stack[i].k = "procedural"
(* named coordinate systems: each name marked once per program, inside the world *)
Mark == \E n \in Pick(Names) : Spaces /\ ~InProc /\ world /\ nworld = 0 /\ named[n] = NoSpace /\ named' = [named EXCEPT ![n] = <<st.m>>]
    /\ Do([op |-> "CoordinateSystem", n |-> n]) /\ UNCHANGED <<st, stack, cam, world, prims, pics, objs, nworld>>
Goto == \E n \in Pick(Names) : Spaces /\ world /\ nworld = 0 /\ named[n] /= NoSpace /\ st' = [st EXCEPT !.m = named[n][1]]
    /\ Do([op |-> "CoordSysTransform", n |-> n]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>
GotoWorld == Spaces /\ world /\ st' = [st EXCEPT !.m = Id] /\ Do([op |-> "CoordSysTransform", n |-> "world"]) /\ UNCHANGED <<stack, cam, world, named, prims, pics, objs, nworld>>

(* blocks *)
Push(k) == stack' = Append(stack, [k |-> k, s |-> st])
AttrBegin == world /\ Len(stack) < 6 /\ Push("attribute") /\ Do([op |-> "AttributeBegin"]) /\ UNCHANGED <<st, cam, world, named, prims, pics, objs, nworld>>
AttrEnd == stack /= <<>> /\ Top.k = "attribute" /\ st' = Top.s /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Do([op |-> "AttributeEnd"]) /\ UNCHANGED <<cam, world, named, prims, pics, objs, nworld>>
(* a procedural: what it generates is rendered in the state of its request, and leaves no trace *)
ProcBegin == Procs /\ world /\ Len(stack) < 6 /\ Push("procedural") /\ Do([op |-> "ProcBegin", m |-> st.m]) /\ UNCHANGED <<st, cam, world, named, prims, pics, objs, nworld>>
ProcEnd == stack /= <<>> /\ Top.k = "procedural" /\ st' = Top.s /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Do([op |-> "ProcEnd"]) /\ UNCHANGED <<cam, world, named, prims, pics, objs, nworld>>
XfBegin == Len(stack) < 6 /\ Push("transform") /\ Do([op |-> "TransformBegin"]) /\ UNCHANGED <<st, cam, world, named, prims, pics, objs, nworld>>
XfEnd == stack /= <<>> /\ Top.k = "transform" /\ st' = [st EXCEPT !.m = Top.s.m] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Do([op |-> "TransformEnd"]) /\ UNCHANGED <<cam, world, named, prims, pics, objs, nworld>>
FrameBegin == ~world /\ stack = <<>> /\ Push("frame") /\ Do([op |-> "FrameBegin", n |-> nworld + 1]) /\ UNCHANGED <<st, cam, world, named, prims, pics, objs, nworld>>
FrameEnd == ~world /\ stack /= <<>> /\ Top.k = "frame" /\ st' = Top.s /\ stack' = <<>> /\ Do([op |-> "FrameEnd"]) /\ UNCHANGED <<cam, world, named, prims, pics, objs, nworld>>
WorldBegin == /\ ~world /\ (stack = <<>> \/ Top.k = "frame") /\ nworld < MaxWorlds
              /\ Push("world") /\ cam' = st.m /\ st' = [st EXCEPT !.m = Id] /\ world' = TRUE /\ prims' = <<>>
              /\ Do([op |-> "WorldBegin"]) /\ UNCHANGED <<named, pics, objs, nworld>>

(* geometry: an axis aligned rectangle in object space; each is nearer than those before *)
Rects == {<<x, y, w, h>> : x \in -1..2, y \in -1..2, w \in 1..4, h \in 1..4}
Shape(r, cw) == [r |-> r, cw |-> cw]
AddPrim(s) == Append(prims, [r |-> s.r, cw |-> s.cw, st |-> st])
Prim == \E r \in Pick(Rects), cw \in Pick({TRUE, FALSE}) : world /\ Len(prims) < MaxPrims
    /\ prims' = AddPrim(Shape(r, cw)) /\ Do([op |-> "Prim", n |-> Len(prims) + 1, r |-> r, cw |-> cw]) /\ UNCHANGED <<st, stack, cam, world, named, pics, objs, nworld>>
DefObj == \E r \in Pick(Rects), cw \in Pick({TRUE, FALSE}) : world /\ ~InProc /\ Len(objs) < 2 /\ objs' = Append(objs, Shape(r, cw))
    /\ Do([op |-> "Object", n |-> Len(objs) + 1, r |-> r, cw |-> cw]) /\ UNCHANGED <<st, stack, cam, world, named, prims, pics, nworld>>
Inst == \E o \in Pick(1..2) : world /\ o <= Len(objs) /\ Len(prims) < MaxPrims /\ prims' = AddPrim(objs[o])
    /\ Do([op |-> "Instance", o |-> o, n |-> Len(prims) + 1]) /\ UNCHANGED <<st, stack, cam, world, named, pics, objs, nworld>>

-----------------------------------------------------------------------------
Full(p) == Mul(cam, p.st.m)
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
(* does p cover the centre of pixel x, y (rows counted from the top)? coordinates doubled *)
Covers(p, x, y) == LET m == Full(p)
      ax == ApplyX(m, p.r[1], p.r[2])  ay == ApplyY(m, p.r[1], p.r[2])
      bx == ApplyX(m, p.r[1] + p.r[3], p.r[2] + p.r[4])  by == ApplyY(m, p.r[1] + p.r[3], p.r[2] + p.r[4])
      cx == 2*x + 1  cy == 2*H - 2*y - 1
   IN cx > 2*Lo(ax, bx) /\ cx < 2*Hi(ax, bx) /\ cy > 2*Lo(ay, by) /\ cy < 2*Hi(ay, by)
(* the front of a polygon given clockwise (seen along +z) faces the camera, whatever the transformation; reversing the orientation makes it the back *)
Front(p) == p.cw # p.st.rev
Visible(p) == p.st.sides = 2 \/ Front(p)
TopAt(x, y) == LET S == {i \in DOMAIN prims : Visible(prims[i]) /\ Covers(prims[i], x, y)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Picture == [cam |-> cam, map |-> [i \in 1..(W*H) |-> TopAt((i-1) % W, (i-1) \div W)],
            prims |-> [i \in DOMAIN prims |-> LET s == prims[i].st IN [col |-> s.col, opa |-> s.opa, user |-> s.user, k |-> s.k, surf |-> s.surf, om |-> s.m, sm |-> s.sm, front |-> Front(prims[i]), r |-> prims[i].r]],
            named |-> named]
WorldEnd == /\ world /\ Top.k = "world" /\ prims /= <<>>
            /\ pics' = Append(pics, Picture) /\ nworld' = nworld + 1 /\ world' = FALSE
            /\ st' = Top.s /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ objs' = <<>>
            /\ Do([op |-> "WorldEnd"]) /\ UNCHANGED <<cam, named, prims>>
Finish == /\ ~done /\ ~world /\ pics /= <<>> /\ done' = TRUE /\ UNCHANGED <<prog, st, stack, cam, world, named, prims, pics, objs, nworld>>
Attr == SetCol \/ SetOpa \/ SetUser \/ SetSurf \/ SetSides \/ Rev \/ Orient
Block == AttrBegin \/ AttrEnd \/ ProcBegin \/ ProcEnd \/ XfBegin \/ XfEnd \/ FrameBegin \/ FrameEnd \/ WorldBegin
Geo == Prim \/ DefObj \/ Inst
(* in random mode a class of request is chosen first, then a request *)
Class == {RandomElement(IF Len(prog) >= 0 THEN 1..10 ELSE {})}     \* depends on the state, so that TLC does not fold it
Dice(n) == RandomElement(IF Len(prog) >= 0 THEN 1..n ELSE {}) = 1
Next == \/ Can /\ UNCHANGED done /\
           IF Rand THEN \E c \in Class :
                \/ c \in 1..3 /\ Attr
                \/ c \in 4..5 /\ (Xform \/ Xform \/ SetXform \/ Ident \/ Mark \/ Goto \/ GotoWorld)
                \/ c \in 6..7 /\ Block
                \/ c \in 8..10 /\ IF world /\ Len(prims) < MaxPrims THEN Geo ELSE SetCol
                \/ (world /\ Len(prims) >= 2 /\ Dice(3) /\ (AttrEnd \/ ProcEnd \/ XfEnd \/ WorldEnd))
                \/ (~world /\ Dice(2) /\ (AttrEnd \/ XfEnd \/ WorldBegin \/ WorldBegin))
           ELSE Attr \/ Xform \/ SetXform \/ Ident \/ Mark \/ Goto \/ GotoWorld \/ Block \/ Geo \/ WorldEnd
        \/ ~done /\ Len(prog) >= MaxSteps /\ world /\ UNCHANGED done /\          \* close what is open
             IF Top.k = "world" THEN IF prims = <<>> THEN Prim ELSE WorldEnd ELSE (AttrEnd \/ ProcEnd \/ XfEnd)
        \/ (nworld = MaxWorlds \/ Len(prog) >= MaxSteps) /\ Finish

-----------------------------------------------------------------------------
(* What the blocks guarantee *)
Balanced == \A i \in DOMAIN stack : stack[i].k = "world" => world
(* nothing but the block structure is left of a closed attribute block: the state is that of the enclosing block's requests *)
Depth(p, i) == Cardinality({j \in 1..i : p[j].op \in {"AttributeBegin", "ProcBegin", "FrameBegin", "WorldBegin", "TransformBegin"}})
                 - Cardinality({j \in 1..i : p[j].op \in {"AttributeEnd", "ProcEnd", "FrameEnd", "WorldEnd", "TransformEnd"}})
StackDepth == Depth(prog, Len(prog)) = Len(stack)
PrimsInPicture == \A i \in DOMAIN pics : \A q \in DOMAIN pics[i].map : pics[i].map[q] \in 0..Len(pics[i].prims)
Emit == done => PrintT("@@" \o ToJson([prog |-> prog, open |-> [i \in DOMAIN stack |-> stack[i].k], pics |-> pics, w |-> W, h |-> H]))
=============================================================================
