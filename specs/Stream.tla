------------------------------- MODULE Stream -------------------------------
(* Framer at full scale, and the messages it delivers. *)
EXTENDS Wire
StreamMarker == <<89, 89, 0, 1>>
StreamPlausible(b) == Word(b, 5) <= 300 /\ b[7] \in {0, 1} /\ b[8] \in {1, 2}
StreamFrameLen(b) == 6 + Word(b, 5)
Fr == INSTANCE Framer WITH Marker <- StreamMarker, MinLen <- 18, Plausible <- StreamPlausible, FrameLen <- StreamFrameLen
Messages(frames, side) == [i \in 1..Len(frames) |-> Decode(frames[i], side)]
=============================================================================
