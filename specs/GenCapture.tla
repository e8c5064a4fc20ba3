----------------------------- MODULE GenCapture -----------------------------
(* Random lives of captures on a live session, printed for replay.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Steps
VARIABLES on, up, hist
R(S) == RandomElement(S)
Act(k, n) == [k |-> k, n |-> n]
GInit == on = FALSE /\ up = TRUE /\ hist = <<>>
Choices == (IF on THEN {"stop", "cancel", "again"} ELSE {"start", "start2", "startbad"})
           \union (IF up THEN {"req", "req", "push", "part", "drop", "reset", "hb"} ELSE {"connect"}) \union (IF on /\ up THEN {"push", "part", "req", "half", "reconnect"} ELSE {})
GNext == /\ Len(hist) < Steps
         /\ LET k == R(IF up /\ on /\ R(1..3) > 1 THEN {"req", "push", "part", "hb", "half", "reconnect"} ELSE Choices)
            IN /\ hist' = Append(hist, Act(k, R(1..1000)))
               /\ on' = IF k \in {"start", "start2", "startbad"} THEN TRUE ELSE IF k \in {"stop", "cancel"} THEN FALSE ELSE on
               /\ up' = IF k \in {"drop", "reset"} THEN FALSE ELSE IF k \in {"connect", "reconnect"} THEN TRUE ELSE up
         /\ (Len(hist') = Steps => PrintT(<<"BEH", ToJson(hist')>>))
GSpec == GInit /\ [][GNext]_<<on, up, hist>>
=============================================================================
