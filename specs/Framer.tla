------------------------------- MODULE Framer -------------------------------
(***************************************************************************)
(* Cutting a byte stream into frames.  Parametrised over the header format  *)
(* so that the same definition is checked exhaustively at a small scale and *)
(* used at full scale to validate the implementation.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Marker,          \* every frame starts with this
          MinLen,          \* nothing is considered before this many bytes are buffered
          Plausible(_),    \* may a header starting this buffer be genuine?
          FrameLen(_)      \* total length it announces

MarkAt(b, i) == \A j \in 1..Len(Marker) : b[i + j - 1] = Marker[j]
Marks(b, lo, hi) == {i \in lo..hi : i + Len(Marker) - 1 <= Len(b) /\ MarkAt(b, i)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
From(b, i) == SubSeq(b, i, Len(b))

\* Consume all that can be consumed: remaining buffer and the frames cut out
RECURSIVE Cut(_, _)
Cut(b, out) ==
    IF Len(b) < MinLen THEN [buf |-> b, out |-> out]
    ELSE IF ~MarkAt(b, 1)
         THEN LET later == Marks(b, 2, Len(b))
              IN IF later = {} THEN [buf |-> From(b, Len(b) - Len(Marker) + 2), out |-> out]
                 ELSE Cut(From(b, Least(later)), out)
    ELSE LET near == Marks(b, 2, MinLen)            \* no frame is that short: this header is debris
         IN IF near # {} THEN Cut(From(b, Least(near)), out)
            ELSE IF ~Plausible(b) THEN Cut(From(b, Len(Marker) + 1), out)
            ELSE IF Len(b) < FrameLen(b) THEN [buf |-> b, out |-> out]
            ELSE Cut(From(b, FrameLen(b) + 1), Append(out, SubSeq(b, 1, FrameLen(b))))
Feed(buf, data) == Cut(buf \o data, <<>>)
=============================================================================
