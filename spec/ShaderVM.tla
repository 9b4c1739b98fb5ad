--------------------------- MODULE ShaderVM ---------------------------
(* Control flow of the shading language.  A random program is built token by      *)
(* token; then it is executed twice: by a SIMD machine with execution masks, which  *)
(* runs all shading points together as the virtual machine of the renderer does, and *)
(* point by point, each with its own program counter, which is what the language       *)
(* means.  SimdIsScalar says they agree; the emitted program and the final values of     *)
(* its variables at every point are then compared with what the real compiler and VM do. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxToks, MaxDepth, LX, LY, MaxRun, Rand


Lanes == (0..LX) \X (0..LY)
Varying == {"a", "b", "c"}
Uniform == {"p", "q"}
LoopV(d) == CASE d = 0 -> "i0" [] d = 1 -> "i1" [] d = 2 -> "i2" [] OTHER -> "i3"
LoopU(d) == CASE d = 0 -> "j0" [] d = 1 -> "j1" [] d = 2 -> "j2" [] OTHER -> "j3"
AllVars == Varying \cup Uniform \cup {LoopV(d) : d \in 0..3} \cup {LoopU(d) : d \in 0..3}
UVars == Uniform \cup {LoopU(d) : d \in 0..3}
Leafs(u) == [k : {"var"}, v : IF u THEN UVars ELSE AllVars \cup {"x", "y"}] \cup [k : {"num"}, v : 0..4]

(* expressions: leaf, binary, conditional; conditions: comparison, and/or/not *)
Val(env, lane, l) == IF l.k = "num" THEN l.v ELSE IF l.v = "x" THEN lane[1] ELSE IF l.v = "y" THEN lane[2] ELSE env[l.v]
Cmp(env, lane, c) == LET A == Val(env, lane, c.l) B == Val(env, lane, c.r) IN
    CASE c.o = "<" -> A < B [] c.o = "<=" -> A <= B [] c.o = ">" -> A > B [] c.o = ">=" -> A >= B [] c.o = "==" -> A = B [] OTHER -> A # B
Cond(env, lane, c) == CASE c.k = "cmp" -> Cmp(env, lane, c.a) [] c.k = "and" -> Cmp(env, lane, c.a) /\ Cmp(env, lane, c.b)
    [] c.k = "or" -> Cmp(env, lane, c.a) \/ Cmp(env, lane, c.b) [] OTHER -> ~Cmp(env, lane, c.a)
Expr(env, lane, e) == CASE e.k = "leaf" -> Val(env, lane, e.a)
    [] e.k = "bin" -> (LET A == Val(env, lane, e.a) B == Val(env, lane, e.b) IN CASE e.o = "+" -> A + B [] e.o = "*" -> A * B [] OTHER -> A + 7 - B)
    [] OTHER -> IF Cond(env, lane, e.c) THEN Val(env, lane, e.a) ELSE Val(env, lane, e.b)
M7(n) == ((n % 7) + 7) % 7

VARIABLES prog, map, open, phase, simd, lane, steps
vars == <<prog, map, open, phase, simd, lane, steps>>

(* ---------- building ---------- *)
Pick(S) == IF Rand /\ Len(prog) > 0 THEN {RandomElement(S)} ELSE S
Depth == Len(open)
AllU == \A i \in DOMAIN open : open[i].u
Loops == {i \in DOMAIN open : open[i].k \in {"for", "while"}}
NLoops == Cardinality(Loops)
Can == phase = "build" /\ Len(prog) < MaxToks
Readable(u) == Uniform \cup {LoopU(d) : d \in 0..(NLoops-1)} \cup IF u THEN {} ELSE Varying \cup {"x", "y"} \cup {LoopV(d) : d \in 0..(NLoops-1)}
PickLeaf(u) == \* numbers one time in four
   IF Rand /\ Len(prog) > 0 THEN IF RandomElement(1..(4 + 0 * Len(prog))) = 1 THEN {RandomElement([k : {"num"}, v : 0..4])} ELSE {RandomElement([k : {"var"}, v : Readable(u)])} ELSE Leafs(u)
PickCmp(u) == {[o |-> o, l |-> l, r |-> r] : o \in Pick({"<", "<=", ">", ">=", "==", "!="}), l \in PickLeaf(u), r \in PickLeaf(u)}
PickCond(u) == {[k |-> k, a |-> a, b |-> b] : k \in Pick({"cmp", "and", "or", "not"}), a \in PickCmp(u), b \in PickCmp(u)}
PickExpr(u) == UNION {IF k = 1 THEN {[k |-> "leaf", a |-> a] : a \in PickLeaf(u)}
      ELSE IF k = 2 THEN {[k |-> "cond", c |-> c, a |-> a, b |-> b] : c \in PickCond(u), a \in PickLeaf(u), b \in PickLeaf(u)}
      ELSE {[k |-> "bin", o |-> o, a |-> a, b |-> b] : o \in Pick({"+", "-", "*"}), a \in PickLeaf(u), b \in PickLeaf(u)} : k \in Pick(1..5)}
NoMap == [e |-> 0, s |-> 0, h |-> 0]
Here == Len(prog) + 1
Tok(t, mp) == prog' = Append(prog, t) /\ map' = mp /\ UNCHANGED <<phase, simd, lane, steps>>

Asg == \E u \in Pick({FALSE, TRUE}) : LET uu == u /\ AllU IN
       \E v \in Pick(IF uu THEN Uniform ELSE Varying) : \E e \in PickExpr(uu) : Can /\ Tok([t |-> "asg", v |-> v, e |-> e], Append(map, NoMap)) /\ UNCHANGED open
OpenIf == \E r \in Pick(1..4) : \E c \in PickCond(r = 1) : Can /\ Depth < MaxDepth /\ Tok([t |-> "if", c |-> c], Append(map, NoMap))
       /\ open' = Append(open, [k |-> "if", u |-> r = 1, e |-> FALSE, p |-> Here])
Else == Can /\ Depth > 0 /\ open[Depth].k = "if" /\ ~open[Depth].e /\ prog[Len(prog)].t # "if"
        /\ Tok([t |-> "else"], Append([map EXCEPT ![open[Depth].p].s = Here], [NoMap EXCEPT !.h = open[Depth].p])) /\ open' = [open EXCEPT ![Depth].e = TRUE]
(* a loop is uniform only where all points run: its variable is written there *)
OpenLoop == \E r \in Pick(1..3), k \in Pick({"for", "while"}) : LET uu == r = 1 /\ AllU w == IF uu THEN LoopU(NLoops) ELSE LoopV(NLoops) IN
       \E c \in PickCond(uu), e \in PickExpr(uu) : Can /\ Depth < MaxDepth /\ NLoops < 3
       /\ Tok(IF k = "for" THEN [t |-> "for", v |-> w, e |-> e] ELSE [t |-> "while", v |-> w, c |-> c], Append(map, NoMap))
       /\ open' = Append(open, [k |-> k, u |-> uu, e |-> FALSE, p |-> Here])
(* break n / continue n: n loops out; the loop left must be varying unless everything inside it is uniform *)
NthLoop(n) == CHOOSE i \in Loops : Cardinality({j \in Loops : j > i}) = n - 1
Jump == \E n \in Pick(1..(IF NLoops = 0 THEN 1 ELSE NLoops)) : \E k \in Pick({"break", "cont"}) : Can /\ NLoops >= n /\ prog[Len(prog)].t \notin {"break", "cont"}
       /\ (open[NthLoop(n)].u => \A i \in NthLoop(n)..Depth : open[i].u)
       /\ Tok([t |-> k, n |-> n], Append(map, NoMap)) /\ UNCHANGED open
EndTok == /\ Tok([t |-> "end"], Append([map EXCEPT ![open[Depth].p].e = Here], [NoMap EXCEPT !.h = open[Depth].p])) /\ open' = SubSeq(open, 1, Depth - 1)
Close == Can /\ Depth > 0 /\ prog[Len(prog)].t \notin {"if", "for", "while", "else"} /\ EndTok
Finish == phase = "build" /\ Len(prog) >= MaxToks /\ Depth > 0 /\ EndTok
Zero == [v \in AllVars |-> 0]
Start == /\ phase = "build" /\ Len(prog) >= MaxToks /\ Depth = 0 /\ phase' = "run" /\ steps' = 0
         /\ simd' = [pc |-> 1, run |-> Lanes, stk |-> <<>>, env |-> [l \in Lanes |-> Zero]]
         /\ lane' = [l \in Lanes |-> [pc |-> 1, env |-> Zero, stk |-> <<>>]]
         /\ UNCHANGED <<prog, open, map>>

(* ---------- one step of one point ---------- *)
LoopTest(t, env, l) == IF t.t = "for" THEN env[t.v] < (Expr(env, l, t.e) % 4) ELSE env[t.v] < 5 /\ Cond(env, l, t.c)
LaneStep(s, l) ==
  IF s.pc > Len(prog) THEN s ELSE LET t == prog[s.pc] IN
  CASE t.t = "asg" -> [s EXCEPT !.env[t.v] = M7(Expr(s.env, l, t.e)), !.pc = @ + 1]
    [] t.t = "if" -> IF Cond(s.env, l, t.c) THEN [s EXCEPT !.pc = @ + 1] ELSE [s EXCEPT !.pc = IF map[s.pc].s > 0 THEN map[s.pc].s + 1 ELSE map[s.pc].e + 1]
    [] t.t = "else" -> [s EXCEPT !.pc = map[map[s.pc].h].e + 1]
    [] t.t \in {"for", "while"} ->
         LET enter == s.stk = <<>> \/ s.stk[Len(s.stk)] # s.pc
             env == IF enter THEN [s.env EXCEPT ![t.v] = 0] ELSE s.env
             go == LoopTest(t, env, l)
         IN IF go THEN [pc |-> s.pc + 1, env |-> IF t.t = "while" THEN [env EXCEPT ![t.v] = @ + 1] ELSE env, stk |-> IF enter THEN Append(s.stk, s.pc) ELSE s.stk]
            ELSE [pc |-> map[s.pc].e + 1, env |-> env, stk |-> IF enter THEN s.stk ELSE SubSeq(s.stk, 1, Len(s.stk) - 1)]
    [] t.t = "end" -> LET h == map[s.pc].h IN IF prog[h].t = "if" THEN [s EXCEPT !.pc = @ + 1]
         ELSE [s EXCEPT !.pc = h, !.env = IF prog[h].t = "for" THEN [@ EXCEPT ![prog[h].v] = @ + 1] ELSE @]
    [] t.t = "break" -> LET h == s.stk[Len(s.stk) - t.n + 1] IN [s EXCEPT !.pc = map[h].e + 1, !.stk = SubSeq(@, 1, Len(@) - t.n)]
    [] t.t = "cont" -> LET h == s.stk[Len(s.stk) - t.n + 1] IN [s EXCEPT !.pc = map[h].e, !.stk = SubSeq(@, 1, Len(@) - t.n + 1)]

(* ---------- one step of all points together ---------- *)
(* stack frames: [k, pc, save: points to run after the block, alt: points for the else branch, cont: points that go on with the next iteration] *)
DropFrom(stk, from, R) == [i \in DOMAIN stk |-> IF i >= from THEN [stk[i] EXCEPT !.save = @ \ R, !.alt = @ \ R, !.cont = @ \ R] ELSE stk[i]]
LoopIdx(stk, n) == LET S == {i \in DOMAIN stk : stk[i].k = "loop"} IN CHOOSE i \in S : Cardinality({j \in S : j > i}) = n - 1
Upd(env, R, v, F(_)) == TLCEval([l \in Lanes |-> IF l \in R THEN [env[l] EXCEPT ![v] = F(l)] ELSE env[l]])
SimdStep(s) ==
  IF s.pc > Len(prog) THEN s ELSE LET t == prog[s.pc] top == Len(s.stk) IN
  CASE t.t = "asg" -> [s EXCEPT !.env = Upd(s.env, s.run, t.v, LAMBDA l : M7(Expr(s.env[l], l, t.e))), !.pc = @ + 1]
    [] t.t = "if" -> LET T == {l \in s.run : Cond(s.env[l], l, t.c)} IN
         [s EXCEPT !.stk = Append(@, [k |-> "if", pc |-> s.pc, save |-> s.run, alt |-> s.run \ T, cont |-> {}]), !.run = T, !.pc = @ + 1]
    [] t.t = "else" -> [s EXCEPT !.run = s.stk[top].alt, !.pc = @ + 1]
    [] t.t \in {"for", "while"} ->
         LET enter == top = 0 \/ s.stk[top].pc # s.pc
             env == IF enter THEN Upd(s.env, s.run, t.v, LAMBDA l : 0) ELSE s.env
             T == {l \in s.run : LoopTest(t, env[l], l)}
             env2 == IF t.t = "while" THEN Upd(env, T, t.v, LAMBDA l : env[l][t.v] + 1) ELSE env
             fr == IF enter THEN [k |-> "loop", pc |-> s.pc, save |-> s.run, alt |-> {}, cont |-> {}] ELSE [s.stk[top] EXCEPT !.cont = {}]
             stk == IF enter THEN Append(s.stk, fr) ELSE [s.stk EXCEPT ![top] = fr]
         IN IF T = {} THEN [s EXCEPT !.pc = map[s.pc].e + 1, !.env = env, !.run = fr.save, !.stk = SubSeq(stk, 1, Len(stk) - 1)]
            ELSE [s EXCEPT !.pc = @ + 1, !.env = env2, !.run = T, !.stk = stk]
    [] t.t = "end" -> LET h == map[s.pc].h IN
         IF prog[h].t = "if" THEN [s EXCEPT !.run = s.stk[top].save, !.stk = SubSeq(@, 1, top - 1), !.pc = @ + 1]
         ELSE LET R == s.run \cup s.stk[top].cont IN
              [s EXCEPT !.run = R, !.pc = h, !.env = IF prog[h].t = "for" THEN Upd(s.env, R, prog[h].v, LAMBDA l : s.env[l][prog[h].v] + 1) ELSE @]
    [] t.t = "break" -> LET L == LoopIdx(s.stk, t.n) IN
         \* points that leave loop L run again after it: they stay in its save set only
         [s EXCEPT !.stk = [i \in DOMAIN s.stk |-> IF i > L THEN DropFrom(s.stk, L + 1, s.run)[i] ELSE s.stk[i]], !.run = {}, !.pc = @ + 1]
    [] t.t = "cont" -> LET L == LoopIdx(s.stk, t.n) IN
         [s EXCEPT !.stk = [i \in DOMAIN s.stk |-> IF i > L THEN DropFrom(s.stk, L + 1, s.run)[i] ELSE IF i = L THEN [s.stk[i] EXCEPT !.cont = @ \cup s.run] ELSE s.stk[i]], !.run = {}, !.pc = @ + 1]

LanesDone == \A l \in Lanes : lane[l].pc > Len(prog)
SimdDone == simd.pc > Len(prog)
Run == /\ phase = "run" /\ steps < MaxRun
       /\ lane' = TLCEval([l \in Lanes |-> TLCEval(LaneStep(lane[l], l))])
       /\ simd' = TLCEval(SimdStep(simd)) /\ steps' = steps + 1
       /\ phase' = IF LanesDone /\ SimdDone THEN "done" ELSE "run"
       /\ UNCHANGED <<prog, open, map>>

Init == prog = <<[t |-> "asg", v |-> "a", e |-> [k |-> "leaf", a |-> [k |-> "var", v |-> "x"]]], [t |-> "asg", v |-> "b", e |-> [k |-> "leaf", a |-> [k |-> "var", v |-> "y"]]]>>
        /\ open = <<>> /\ map = <<NoMap, NoMap>> /\ phase = "build" /\ simd = <<>> /\ lane = <<>> /\ steps = 0
Next == \/ Asg \/ OpenIf \/ Else \/ OpenLoop \/ Jump \/ Close \/ Finish \/ Start \/ Run

SimdIsScalar == phase = "done" => simd.env = [l \in Lanes |-> lane[l].env]
MasksNest == phase = "run" => \A i \in DOMAIN simd.stk : /\ simd.stk[i].alt \subseteq simd.stk[i].save
                                    /\ (i < Len(simd.stk) => simd.stk[i+1].save \subseteq simd.stk[i].save) /\ simd.run \subseteq simd.stk[i].save
UniformIsUniform == phase = "done" => \A l, m \in Lanes : \A v \in UVars : lane[l].env[v] = lane[m].env[v]
Emit == phase = "done" => PrintT("@@" \o ToJson([prog |-> prog, env |-> [i \in 1..((LX+1)*(LY+1)) |-> lane[<<(i-1) % (LX+1), (i-1) \div (LX+1)>>].env], steps |-> steps]))
=======================================================================
