---------------------------- MODULE DisplayTrace ----------------------------
(* Is every recorded sequence of display calls a behaviour of DisplayProtocol?  *)
EXTENDS DisplayProtocol, TLC, Json
VARIABLES t, i
Traces == JsonDeserialize("traces.json")
Init == /\ t \in 1..Len(Traces) /\ i = 0
        /\ win = [x0 |-> Traces[t].x0, x1 |-> Traces[t].x1, y0 |-> Traces[t].y0, y1 |-> Traces[t].y1, scan |-> Traces[t].scan]
        /\ phase = "closed" /\ got = {}
Ev == Traces[t].ev[i + 1]
Next == /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ UNCHANGED t
        /\ \/ Ev.k = "O" /\ Open
           \/ Ev.k = "D" /\ Data(Ev.r[1], Ev.r[2], Ev.r[3], Ev.r[4])
           \/ Ev.k = "C" /\ Close
(* each accepted trace is reported; one missing from the report is not a behaviour *)
Accepted == (i = Len(Traces[t].ev) /\ phase = "done") => PrintT("@@" \o ToJson([ok |-> t]))
=============================================================================
