------------------------------ MODULE RiFilters -----------------------------
(* What the stream filters let through: frame selection, ignored archives, and     *)
(* tee junctions.  The environment chooses a list of wanted frames and issues a     *)
(* stream; kept is what must reach the end of the pipeline.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxItems, Rand, MaxFrame
VARIABLES ranges,   \* Seq of <<a, b>>: the frame list as the user writes it
          filt,     \* Seq of filters, first one first
          src, kept, inFrame, active, stage
vars == <<ranges, filt, src, kept, inFrame, active, stage>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
Wanted == UNION { {k \in -1..MaxFrame : (k >= r[1] /\ k <= r[2]) \/ (k >= r[2] /\ k <= r[1])} : r \in {ranges[i] : i \in DOMAIN ranges} }
Drops == "framedrop" \in {filt[i] : i \in DOMAIN filt}
NoArch == "ignorearchives" \in {filt[i] : i \in DOMAIN filt}

Init == ranges = <<>> /\ filt = <<>> /\ src = <<>> /\ kept = <<>> /\ inFrame = FALSE /\ active = TRUE /\ stage = "ranges"
AddRange == /\ stage = "ranges" /\ Len(ranges) < (IF Rand THEN 4 ELSE 2) /\ \E a \in Pick(0..MaxFrame) : \E b \in Pick(0..MaxFrame \cup {a}) : ranges' = Append(ranges, <<a, b>>)
            /\ UNCHANGED <<filt, src, kept, inFrame, active, stage>>
AddFilt == /\ stage \in {"ranges", "filters"} /\ Len(filt) < 3 /\ ranges # <<>>
           /\ \E f \in Pick({"framedrop", "ignorearchives", "tee"}) : (\A i \in DOMAIN filt : filt[i] # f) /\ filt' = Append(filt, f)
           /\ stage' = "filters" /\ UNCHANGED <<ranges, src, kept, inFrame, active>>
Put(it, ok) == /\ src' = Append(src, it) /\ kept' = IF ok THEN Append(kept, it) ELSE kept
Go == stage \in {"filters", "stream"} /\ Len(src) < MaxItems
It(o, x) == [o |-> o, x |-> x]
FrameB == /\ Go /\ ~inFrame /\ \E k \in Pick(0..MaxFrame) :
             LET a == ~Drops \/ k \in Wanted IN Put(It("FB", k), a) /\ active' = a
          /\ inFrame' = TRUE /\ stage' = "stream" /\ UNCHANGED <<ranges, filt>>
FrameE == /\ stage = "stream" /\ inFrame /\ Put(It("FE", 0), active) /\ active' = TRUE /\ inFrame' = FALSE /\ UNCHANGED <<ranges, filt, stage>>
Leaf == /\ Go /\ Put(It("leaf", Len(src)), active) /\ stage' = "stream" /\ UNCHANGED <<ranges, filt, inFrame, active>>
Read == /\ Go /\ Put(It("RA", Len(src)), active /\ ~NoArch) /\ stage' = "stream" /\ UNCHANGED <<ranges, filt, inFrame, active>>
Stop == /\ stage = "stream" /\ ~inFrame /\ src # <<>> /\ (Rand => Len(src) >= MaxItems) /\ stage' = "done" /\ UNCHANGED <<ranges, filt, src, kept, inFrame, active>>
Next == AddRange \/ AddFilt \/ FrameB \/ FrameE \/ Leaf \/ Read \/ Stop

(* a dropped frame leaves nothing behind, a kept one loses nothing but ignored archives *)
Frames(s) == {s[i].x : i \in {j \in DOMAIN s : s[j].o = "FB"}}
NoDropped == Drops => Frames(kept) \subseteq Wanted
OutsideKept == \A i \in DOMAIN src : (src[i].o = "leaf" /\ \A j \in 1..i : src[j].o # "FB") => \E k \in DOMAIN kept : kept[k] = src[i]
Paired == stage = "done" => Cardinality({i \in DOMAIN kept : kept[i].o = "FB"}) = Cardinality({i \in DOMAIN kept : kept[i].o = "FE"})
(* the branch of a tee sees the stream as it is at that point of the pipeline *)
TeePos == CHOOSE i \in DOMAIN filt : filt[i] = "tee"
AtTee == IF "tee" \notin {filt[i] : i \in DOMAIN filt} THEN <<>>
         ELSE LET before == {filt[i] : i \in 1..(TeePos - 1)}
                  dropped == {i \in DOMAIN src : LET fb == {j \in 1..i : src[j].o = "FB"} fe == {j \in 1..(i-1) : src[j].o = "FE"}
                                                     m == IF fb = {} THEN 0 ELSE CHOOSE j \in fb : \A k \in fb : k <= j
                                                     closed == m = 0 \/ \E j \in fe : j > m
                                                 IN ~closed /\ src[m].x \notin Wanted}
              IN SelectSeq([i \in DOMAIN src |-> [s |-> src[i], d |-> i \in dropped]],
                           LAMBDA e : ~("framedrop" \in before /\ e.d) /\ ~("ignorearchives" \in before /\ e.s.o = "RA"))
Emit == stage = "done" => PrintT("@@" \o ToJson([ranges |-> ranges, filt |-> filt, src |-> src, kept |-> kept, branch |-> [i \in DOMAIN AtTee |-> AtTee[i].s]]))
=============================================================================
