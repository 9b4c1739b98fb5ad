-------------------------- MODULE DisplayProtocol --------------------------
(* The calls a display receives for one image: open, then rectangles of pixels  *)
(* covering the window [x0,x1) x [y0,y1) without overlap, then close.  A display  *)
(* which asked for scanlines gets whole rows, from top to bottom.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxX, MaxY
VARIABLES win, phase, got
pvars == <<win, phase, got>>
Rect(a, b, c, d) == {<<x, y>> : x \in a..(b-1), y \in c..(d-1)}
Window == Rect(win.x0, win.x1, win.y0, win.y1)
PInit == /\ win \in {[x0 |-> a, x1 |-> b, y0 |-> c, y1 |-> d, scan |-> s] : a \in {0, 1}, b \in 2..MaxX, c \in {0, 1}, d \in 2..MaxY, s \in BOOLEAN}
         /\ phase = "closed" /\ got = {}
Open == phase = "closed" /\ phase' = "open" /\ UNCHANGED <<win, got>>
Data(a, b, c, d) ==
    LET r == Rect(a, b, c, d) IN
    /\ phase = "open" /\ r /= {} /\ r \subseteq Window /\ r \cap got = {}
    /\ win.scan => a = win.x0 /\ b = win.x1 /\ d = c + 1 /\ got = Rect(win.x0, win.x1, win.y0, c)
    /\ got' = got \cup r /\ UNCHANGED <<win, phase>>
Close == phase = "open" /\ got = Window /\ phase' = "done" /\ UNCHANGED <<win, got>>
PNext == Open \/ Close \/ \E a, b \in win.x0..win.x1, c, d \in win.y0..win.y1 : Data(a, b, c, d)
PSpec == PInit /\ [][PNext]_pvars /\ WF_pvars(PNext)
(* consequences *)
DoneComplete == phase = "done" => got = Window
Inside == got \subseteq Window
ScanRows == win.scan => \A p \in got : \A x \in win.x0..(win.x1-1), y \in win.y0..p[2] : y < p[2] => <<x, y>> \in got
Finishes == <>(phase = "done")
=============================================================================
