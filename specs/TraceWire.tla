------------------------------ MODULE TraceWire ------------------------------
(***************************************************************************)
(* Recorded encoder and stream-decoder runs checked against Wire/Stream.    *)
(* Event kinds:                                                             *)
(*   feed  b -> out (records of Wire) ; the decoder keeps its own buffer     *)
(*   enc   m, ty, inst -> refused, bytes                                    *)
(***************************************************************************)
EXTENDS TraceLib
S == INSTANCE Stream
VARIABLES tid, i, buf
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ buf = <<>>

AsRec(r) == [S!Blank EXCEPT !.k = r.k, !.ser = r.ser, !.pad = r.pad, !.dev = r.dev, !.err = r.err, !.inv = r.inv, !.a = r.a, !.b = r.b,
                            !.vals = r.vals, !.chk = r.chk, !.bad = r.bad, !.csv = r.csv]
FeedClause(e, r) ==
    IF e.exc # "" THEN "raised"
    ELSE LET want == S!Messages(r.out, T.side)
             got == [j \in 1..Len(e.out) |-> AsRec(e.out[j])]
         IN IF got = want THEN ""
            ELSE IF Len(got) # Len(want) THEN "delivery"
            ELSE IF [j \in 1..Len(got) |-> got[j].k] # [j \in 1..Len(want) |-> want[j].k] THEN "kind" ELSE "content"
EncClause(e) ==
    LET m == AsRec(e.m)
        ok == S!Sendable(m, e.ty, e.inst)
        full == [m EXCEPT !.ser = S!Ten(m.ser), !.inv = IF m.k \in S!Reads \union {"W", "null"} THEN S!Ten(m.inv) ELSE <<>>]
    IN IF e.refused # ~ok THEN (IF ok THEN "refused" ELSE "not refused")
       ELSE IF ok /\ e.bytes # S!Encode(full) THEN "bytes" ELSE ""
Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           r == S!Fr!Feed(buf, e.b)
           c == IF e.k = "feed" THEN FeedClause(e, r) ELSE EncClause(e)
       IN IF c = "" THEN /\ i' = i + 1 /\ UNCHANGED tid
                         /\ buf' = IF e.k = "feed" THEN r.buf ELSE buf
                         /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, IF e.k = "feed" THEN <<Len(r.out), [j \in 1..(IF Len(r.out) < 12 THEN Len(r.out) ELSE 12) |-> S!Decode(r.out[j], T.side).k]>> ELSE <<0>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, buf>>
=============================================================================
