------------------------------ MODULE Lighting ------------------------------
(* Light sources: what each of them emits, which of them illuminate a primitive      *)
(* (the list of lights in force, changed by LightSource and Illuminate and scoped by *)
(* attribute, frame and world blocks), where they are (the transformation in force   *)
(* at their definition) and which of them an illuminance loop of a surface meets.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, LX, LY, Z0, Rand
VARIABLES prog, on, tab, lights, m, stack, phase, pics, world
vars == <<prog, on, tab, lights, m, stack, phase, pics, world>>
Pick(S) == IF Rand /\ Len(prog) >= 0 THEN {RandomElement(S)} ELSE S
N == Len(prog)
Handles == {"1", "2", "key", "fill"}
(* rigid transformations: rows of the rotation and the translation; p -> p * r + t *)
Id == [r |-> <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>, t |-> <<0,0,0>>]
VMul(v, r) == <<v[1]*r[1][1]+v[2]*r[2][1]+v[3]*r[3][1], v[1]*r[1][2]+v[2]*r[2][2]+v[3]*r[3][2], v[1]*r[1][3]+v[2]*r[2][3]+v[3]*r[3][3]>>
Add3(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Sub3(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Pt(p, x) == TLCEval(Add3(VMul(p, x.r), x.t))
Vec(p, x) == TLCEval(VMul(p, x.r))
(* a transformation request: the new transformation applies first *)
Compose(a, x) == TLCEval([r |-> <<Vec(a.r[1], x), Vec(a.r[2], x), Vec(a.r[3], x)>>, t |-> Pt(a.t, x)])
RotZ == [r |-> <<<<0,1,0>>, <<-1,0,0>>, <<0,0,1>>>>, t |-> <<0,0,0>>]     \* Rotate 90 0 0 1
RotX == [r |-> <<<<1,0,0>>, <<0,0,1>>, <<0,-1,0>>>>, t |-> <<0,0,0>>]     \* Rotate 90 1 0 0
Shift(v) == [Id EXCEPT !.t = v]

Init == prog = <<>> /\ on = <<>> /\ tab = [h \in Handles |-> 0] /\ lights = <<>> /\ m = Id /\ stack = <<>> /\ phase = "pre" /\ pics = <<>> /\ world = [patches |-> <<>>]
Say(s) == prog' = Append(prog, s)
Busy == phase # "end" /\ N < MaxOps
Off(q, i) == SelectSeq(q, LAMBDA x : x # i)
Has(q, i) == \E k \in DOMAIN q : q[k] = i

(* kinds: amb (no direction), pt (falls off with the square of the distance), dist (parallel), omni (no fall off), spot (no fall off, within a cone) *)
Light == \E h \in Pick(Handles), k \in Pick({"amb", "pt", "dist", "dist2", "omni", "omni", "spot", "spot"}) : \E r \in Pick(0..3), g \in Pick(0..3), b \in Pick(0..3) :
         \E fx \in Pick(-2..6), fy \in Pick(-2..5), fz \in Pick({2, 4, 7, 9, 12}), a \in Pick({<<0,0,1>>, <<0,0,-1>>, <<1,0,0>>, <<0,2,0>>, <<0,-1,0>>, <<1,1,3>>, <<0,-1,2>>}) :
         \E cat \in Pick({"", "a", "b", "a,b", "b,a,c", "c,b"}), nd \in Pick(0..5), ns \in Pick(0..5), deff \in Pick({TRUE, FALSE, FALSE}), area \in Pick({FALSE, FALSE, FALSE, TRUE}) :
  LET from == IF deff THEN <<0,0,0>> ELSE <<fx, fy, fz>>
      to == Add3(from, IF k = "dist2" THEN <<3, 0, 4>> ELSE a)
      l == [k |-> k, c |-> <<r, g, b>>, from |-> Pt(from, m), dir |-> Sub3(Pt(to, m), Pt(from, m)), cat |-> cat, tag |-> IF k \in {"omni", "spot"} THEN Len(lights) + 1 ELSE 0, nd |-> k \in {"omni", "spot"} /\ nd = 0, ns |-> k \in {"omni", "spot"} /\ ns = 0]
  IN /\ Busy /\ Len(lights) < 6 /\ (k \in {"amb", "dist", "dist2"} \/ l.from[3] # Z0)
     /\ lights' = Append(lights, l) /\ tab' = [tab EXCEPT ![h] = Len(lights) + 1] /\ on' = Append(on, Len(lights) + 1)
     /\ Say([op |-> "light", tag |-> l.tag, h |-> h, k |-> k, c |-> l.c, from |-> from, to |-> to, deff |-> deff, cat |-> cat, nd |-> l.nd, ns |-> l.ns, area |-> area]) /\ UNCHANGED <<m, stack, phase, pics, world>>
Illuminate == \E h \in Pick(Handles), v \in Pick({TRUE, FALSE}) :
  /\ Busy /\ tab[h] >= 0 /\ Say([op |-> "illuminate", h |-> h, v |-> v])
  /\ on' = (IF tab[h] = 0 THEN on ELSE IF v THEN (IF Has(on, tab[h]) THEN on ELSE Append(on, tab[h])) ELSE Off(on, tab[h]))
  /\ UNCHANGED <<tab, lights, m, stack, phase, pics, world>>
Begin == \E k \in Pick({"attribute", "attribute", "transform"}) : /\ Busy /\ phase = "in" /\ Len(stack) < 4 /\ stack' = Append(stack, [k |-> k, on |-> on, m |-> m, tab |-> tab]) /\ Say([op |-> k \o "begin"])
         /\ UNCHANGED <<on, tab, lights, m, phase, pics, world>>
End == /\ Busy /\ stack # <<>> /\ stack[Len(stack)].k \in {"attribute", "transform"} /\ (LET s == stack[Len(stack)] IN m' = s.m /\ on' = (IF s.k = "attribute" THEN s.on ELSE on) /\ Say([op |-> s.k \o "end"]))
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<tab, lights, phase, pics, world>>
Trans == \E x \in Pick(-2..3), y \in Pick(-2..2), z \in Pick(-2..2), k \in Pick({"t", "t", "rx", "rz"}) : Busy
         /\ m' = Compose(CASE k = "t" -> Shift(<<x, y, z>>) [] k = "rx" -> RotX [] OTHER -> RotZ, m)
         /\ (\A i \in 1..3 : m'.t[i] \in -12..12)
         /\ Say([op |-> k, v |-> <<x, y, z>>]) /\ UNCHANGED <<on, tab, lights, stack, phase, pics, world>>
WorldBegin == Busy /\ phase = "pre" /\ N >= 2 /\ phase' = "in" /\ stack' = Append(stack, [k |-> "world", on |-> on, m |-> m, tab |-> tab]) /\ world' = [patches |-> <<>>] /\ Say([op |-> "worldbegin"]) /\ UNCHANGED <<on, tab, lights, m, pics>>

(* what the lights in force give at point P, seen from the surface with normal <<0,0,-1>>; 100 cos(angle) = 61 for every cone *)
Cone(d, a) == LET c == Dot(d, a) IN c > 0 /\ 10000 * c * c > 3721 * Dot(d, d) * Dot(a, a)
Near(d, a) == LET c == Dot(d, a) x == 10000 * c * c - 3721 * Dot(d, d) * Dot(a, a) IN c > 0 /\ x < 2000 /\ x > -2000     \* too close to the edge of the cone to tell
At(l, P) ==
  LET L == IF l.k \in {"dist", "dist2"} THEN <<-l.dir[1], -l.dir[2], -l.dir[3]>> ELSE Sub3(l.from, P)
      lit == l.k # "spot" \/ Cone(Sub3(P, l.from), l.dir)
  IN [tag |-> l.tag, amb |-> l.k = "amb", c |-> IF lit THEN l.c ELSE <<0,0,0>>, den |-> IF l.k = "pt" THEN Dot(L, L) ELSE 1, L |-> L, lit |-> lit, cone |-> Cone(L, <<0,0,-1>>), nd |-> l.nd, ns |-> l.ns, cat |-> l.cat, hascat |-> l.k \in {"omni", "spot"},
      sure |-> l.k = "amb" \/ (~Near(L, <<0,0,-1>>) /\ (l.k # "spot" \/ ~Near(Sub3(P, l.from), l.dir)))]
Lane(i) == <<(i-1) % (LX+1), (i-1) \div (LX+1)>>
Patch == /\ Busy /\ phase = "in" /\ Len(world.patches) < 3
         /\ (LET k == Len(world.patches) IN world' = [patches |-> Append(world.patches, [on |-> on, m |-> m, v |-> TLCEval([i \in 1..((LX+1)*(LY+1)) |-> [j \in DOMAIN on |-> At(lights[on[j]], <<Lane(i)[1] + (LX + 1) * k, Lane(i)[2], Z0>>)]])])]
            /\ Say([op |-> "patch", m |-> m, k |-> k]))
         /\ UNCHANGED <<on, tab, lights, m, stack, phase, pics>>
WAt == CHOOSE i \in DOMAIN stack : stack[i].k = "world"
WorldEnd == /\ phase = "in" /\ N >= MaxOps \div 2 /\ world.patches # <<>> /\ (N >= MaxOps \/ Pick({0, 1, 2}) = {0})
            /\ (LET w == stack[WAt] IN on' = w.on /\ tab' = [h \in Handles |-> IF tab[h] = w.tab[h] THEN tab[h] ELSE -1] /\ m' = w.m)     \* -1: a light of that name belonged to the world; requests naming it are not made
            /\ Say([op |-> "worldend", open |-> [i \in 1..(Len(stack) - WAt) |-> stack[Len(stack) + 1 - i].k]]) /\ stack' = SubSeq(stack, 1, WAt - 1) /\ pics' = Append(pics, world) /\ phase' = IF Len(prog) + 4 < MaxOps \/ WAt > 1 THEN "pre" ELSE "end"
            /\ UNCHANGED <<lights, world>>
FrameBegin == Busy /\ phase = "pre" /\ stack = <<>> /\ Pick(0..2) = {0} /\ stack' = <<[k |-> "frame", on |-> on, m |-> m, tab |-> tab]>> /\ Say([op |-> "framebegin"]) /\ UNCHANGED <<on, tab, lights, m, phase, pics, world>>
FrameEnd == /\ phase = "pre" /\ stack # <<>> /\ (N >= MaxOps \/ Pick(0..2) = {0}) /\ (LET w == stack[1] IN on' = w.on /\ m' = w.m /\ tab' = [h \in Handles |-> IF tab[h] = w.tab[h] THEN tab[h] ELSE -1])
            /\ stack' = <<>> /\ Say([op |-> "frameend"]) /\ UNCHANGED <<lights, phase, pics, world>>
Stop == phase = "pre" /\ stack = <<>> /\ N >= MaxOps /\ phase' = "end" /\ UNCHANGED <<prog, on, tab, lights, m, stack, pics, world>>
LastPatch == phase = "in" /\ N >= MaxOps /\ world.patches = <<>> /\ Say([op |-> "patch", m |-> m, k |-> 0])
             /\ world' = [patches |-> <<[on |-> on, m |-> m, v |-> TLCEval([i \in 1..((LX+1)*(LY+1)) |-> [j \in DOMAIN on |-> At(lights[on[j]], <<Lane(i)[1], Lane(i)[2], Z0>>)]])]>>] /\ UNCHANGED <<on, tab, lights, m, stack, phase, pics>>
Next == Light \/ Illuminate \/ Illuminate \/ Begin \/ End \/ Trans \/ WorldBegin \/ Patch \/ Patch \/ WorldEnd \/ FrameBegin \/ FrameEnd \/ Stop \/ LastPatch

(* a light is on at most once; a light turned off in a block is on again after it (checked by construction of the stack); handles denote the latest light of that name *)
OnceOn == \A i, j \in DOMAIN on : on[i] = on[j] => i = j
Known == \A i \in DOMAIN on : on[i] \in DOMAIN lights
LatestHandle == \A h \in Handles : tab[h] > 0 => tab[h] \in DOMAIN lights
Rigid == \A i, j \in 1..3 : Dot(m.r[i], m.r[j]) = IF i = j THEN 1 ELSE 0
Emit == phase = "end" /\ pics # <<>> => PrintT("@@" \o ToJson([prog |-> prog, pics |-> pics]))
=======================================================================
