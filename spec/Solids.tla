------------------------------- MODULE Solids -------------------------------
(* Constructive solid geometry: trees of solid blocks over boxes, seen along z.       *)
(* A ray sees exactly those faces of the boxes at which it enters or leaves the       *)
(* solid that the tree denotes, whatever else the picture holds.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, H, D, MaxBoxes, MaxOps, MaxDepth, Rand, Inside
VARIABLES prog,     \* requests so far
          nodes,    \* nodes of the trees: [t |-> operation, kids |-> nodes, boxes |-> boxes], in order of creation
          open,     \* the open solid blocks (0: an attribute or transform block)
          boxes, loose, used, roots, phase, shift, stack, pics
vars == <<prog, nodes, open, boxes, loose, used, roots, phase, shift, stack, pics>>
Pick(S) == IF Rand /\ Len(prog) >= 0 THEN {RandomElement(S)} ELSE S
N == Len(prog)
Top == open[Len(open)]
Solids == SelectSeq(open, LAMBDA n : n > 0)
Cur == IF Solids = <<>> THEN 0 ELSE Solids[Len(Solids)]
Init == prog = <<>> /\ nodes = <<>> /\ open = <<>> /\ boxes = <<>> /\ loose = <<>> /\ used = {} /\ roots = <<>> /\ phase = "in" /\ shift = <<0, 0>> /\ stack = <<>> /\ pics = <<>>
Say(s) == prog' = Append(prog, s)
Busy == phase = "in" /\ N < MaxOps

SolidBegin == \E t \in Pick({"union", "intersection", "difference", "primitive", "primitive"}) :
  /\ Busy /\ Len(open) < MaxDepth + 2 /\ (IF Cur = 0 THEN TRUE ELSE nodes[Cur].t # "primitive") /\ (IF t = "primitive" THEN TRUE ELSE Len(Solids) < MaxDepth)
  /\ nodes' = Append(IF Cur = 0 THEN nodes ELSE [nodes EXCEPT ![Cur].kids = Append(@, Len(nodes) + 1)], [t |-> t, kids |-> <<>>, boxes |-> <<>>])
  /\ open' = Append(open, Len(nodes) + 1) /\ roots' = (IF Cur = 0 THEN Append(roots, Len(nodes) + 1) ELSE roots)
  /\ stack' = Append(stack, shift) /\ Say([op |-> "solidbegin", t |-> t]) /\ UNCHANGED <<boxes, loose, used, phase, shift, pics>>
Begin == \E t \in Pick({"attribute", "transform"}) : /\ Busy /\ Len(open) < MaxDepth + 2 /\ Pick(0..2) = {0} /\ open' = Append(open, IF t = "attribute" THEN 0 ELSE -1) /\ stack' = Append(stack, shift) /\ Say([op |-> t \o "begin"])
         /\ UNCHANGED <<nodes, boxes, loose, used, roots, phase, shift, pics>>
End == /\ phase = "in" /\ open # <<>> /\ (IF Busy /\ Cur > 0 THEN nodes[Cur].boxes # <<>> \/ nodes[Cur].kids # <<>> \/ Pick(0..5) = {0} ELSE TRUE) /\ shift' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ open' = SubSeq(open, 1, Len(open) - 1)
       /\ Say([op |-> IF Top > 0 THEN "solidend" ELSE IF Top = 0 THEN "attributeend" ELSE "transformend"]) /\ UNCHANGED <<nodes, boxes, loose, used, roots, phase, pics>>
Shift == Pick(0..2) = {0} /\ \E x \in Pick(-1..1), y \in Pick(-1..1) : Busy /\ shift' = <<shift[1] + x, shift[2] + y>> /\ Say([op |-> "translate", x |-> x, y |-> y]) /\ UNCHANGED <<nodes, open, boxes, loose, used, roots, phase, stack, pics>>

Overlap(a, b) == a.x0 < b.x1 /\ b.x0 < a.x1 /\ a.y0 < b.y1 /\ b.y0 < a.y1 /\ a.z0 < b.z1 /\ b.z0 < a.z1
(* a box of the primitive that is open; its two faces along z have depths no other face has; with Inside, it may reach behind the eye (a depth of 0 or less) *)
Free(a) == {z \in a..D : z \notin used}
Open == IF Cur = 0 THEN FALSE ELSE nodes[Cur].t = "primitive"
Box == Busy /\ Open /\ Len(boxes) < MaxBoxes /\ Free(1) # {} /\ \E x0 \in Pick(0..(W-1)), y0 \in Pick(0..(H-1)), z0 \in Pick(Free(IF Inside THEN -2 ELSE 1)) : Free(IF z0 < 1 THEN 1 ELSE z0 + 1) # {} /\ \E x1 \in Pick((x0+1)..W), y1 \in Pick((y0+1)..H), z1 \in Pick(Free(IF z0 < 1 THEN 1 ELSE z0 + 1)), o \in Pick({1, 2, 2, 2}) :
  LET b == [x0 |-> x0, x1 |-> x1, y0 |-> y0, y1 |-> y1, z0 |-> z0, z1 |-> z1, o |-> o] IN
  /\ (\A k \in DOMAIN nodes[Cur].boxes : ~Overlap(b, boxes[nodes[Cur].boxes[k]]))
  /\ boxes' = Append(boxes, b) /\ nodes' = [nodes EXCEPT ![Cur].boxes = Append(@, Len(boxes) + 1)] /\ used' = used \cup ({z0, z1} \ -5..0)
  /\ Say([op |-> "box", id |-> Len(boxes) + 1, b |-> b, shift |-> shift]) /\ UNCHANGED <<open, loose, roots, phase, shift, stack, pics>>
(* a surface outside every solid *)
Loose == Busy /\ Cur = 0 /\ Free(1) # {} /\ Len(loose) < 2 /\ \E x0 \in Pick(0..(W-1)), y0 \in Pick(0..(H-1)), z \in Pick(Free(1)), o \in Pick({1, 2}) : \E x1 \in Pick((x0+1)..W), y1 \in Pick((y0+1)..H) :
  /\ used' = used \cup {z} /\ loose' = Append(loose, [x0 |-> x0, x1 |-> x1, y0 |-> y0, y1 |-> y1, z |-> z, o |-> o])
  /\ Say([op |-> "loose", id |-> Len(loose) + 1, b |-> loose'[Len(loose')], shift |-> shift]) /\ UNCHANGED <<nodes, open, boxes, roots, phase, shift, stack, pics>>

(* the denotation: membership of the point between depths z and z+1 of the pixel *)
Covers(b, x, y) == b.x0 <= x /\ x < b.x1 /\ b.y0 <= y /\ y < b.y1
RECURSIVE In(_, _, _, _)
In(n, x, y, z) ==
  LET s == nodes[n] k(i) == In(s.kids[i], x, y, z) IN
  CASE s.t = "primitive" -> \E i \in DOMAIN s.boxes : LET b == boxes[s.boxes[i]] IN Covers(b, x, y) /\ b.z0 <= z /\ z < b.z1
  [] s.t = "union" -> \E i \in DOMAIN s.kids : k(i)
  [] s.t = "intersection" -> s.kids # <<>> /\ \A i \in DOMAIN s.kids : k(i)
  [] OTHER -> s.kids # <<>> /\ k(1) /\ \A i \in 2..Len(s.kids) : ~k(i)
RECURSIVE Under(_)
Under(n) == {nodes[n].boxes[i] : i \in DOMAIN nodes[n].boxes} \cup UNION {Under(nodes[n].kids[i]) : i \in DOMAIN nodes[n].kids}
FaceAt(n, x, y, z) == {b \in Under(n) : Covers(boxes[b], x, y) /\ (boxes[b].z0 = z \/ boxes[b].z1 = z)}
(* what the pixel shows at depth z: a face of a solid, a loose surface, or nothing *)
Shown(x, y, z) ==
  LET s == {n \in {roots[i] : i \in DOMAIN roots} : In(n, x, y, z - 1) # In(n, x, y, z)}
      l == {i \in DOMAIN loose : loose[i].z = z /\ Covers(loose[i], x, y)}
  IN IF s # {} THEN LET n == CHOOSE m \in s : TRUE IN <<[z |-> z, k |-> "box", id |-> CHOOSE b \in FaceAt(n, x, y, z) : TRUE]>>
     ELSE IF l # {} THEN <<[z |-> z, k |-> "loose", id |-> CHOOSE i \in l : TRUE]>> ELSE <<>>
RECURSIVE Along(_, _, _)
Along(x, y, z) == IF z > D THEN <<>> ELSE Shown(x, y, z) \o Along(x, y, z + 1)
World == /\ phase = "in" /\ open = <<>> /\ boxes # <<>> /\ N >= MaxOps
         /\ pics' = Append(pics, TLCEval([i \in 1..(W*H) |-> Along((i-1) % W, (i-1) \div W, 1)])) /\ phase' = "end" /\ UNCHANGED <<prog, nodes, open, boxes, loose, used, roots, shift, stack>>
Next == SolidBegin \/ SolidBegin \/ SolidBegin \/ Begin \/ End \/ Shift \/ Box \/ Box \/ Box \/ Box \/ Box \/ Loose \/ World

(* each solid is entered and left in turn: closed solids in front of the eye show an even number of faces, and each change has its face *)
HasFace == phase = "end" => \A n \in {roots[i] : i \in DOMAIN roots}, x \in 0..(W-1), y \in 0..(H-1), z \in 1..D : In(n, x, y, z - 1) # In(n, x, y, z) => Cardinality(FaceAt(n, x, y, z)) = 1
Closed == phase = "end" => \A n \in {roots[i] : i \in DOMAIN roots}, x \in 0..(W-1), y \in 0..(H-1) : ~In(n, x, y, D) /\ (~Inside => Cardinality({z \in 1..D : In(n, x, y, z - 1) # In(n, x, y, z)}) % 2 = 0)
Emit == phase = "end" => PrintT("@@" \o ToJson([prog |-> prog, boxes |-> boxes, loose |-> loose, pics |-> pics]))
=======================================================================
