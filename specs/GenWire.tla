------------------------------- MODULE GenWire -------------------------------
(***************************************************************************)
(* Random sessions on the wire, printed for replay: each behaviour is a      *)
(* stream of messages (and, optionally, debris) cut into reads.             *)
(***************************************************************************)
EXTENDS Stream, TLC, Json
CONSTANTS Side, Debris, Steps
R(S) == RandomElement(S)
Printable == (48..57) \union (65..90)
RandSer(z) == [i \in 1..10 |-> R(Printable)]
RandPad(n) == <<0, 0, 0, 0, 0, 0, 0, n>>
Vals(n) == LET mode == R(1..4) IN [i \in 1..n |-> CASE mode = 1 -> R(0..65535) [] mode = 2 -> IF i % 2 = 1 THEN 22873 ELSE 1
                                                  [] mode = 3 -> R({0, 65535, 89, 1, 22784}) [] OTHER -> 0]
RandMsg(z) == LET k == IF Side = "c" THEN R({"HR", "IR", "MR", "HR", "IR", "W", "hb", "null"}) ELSE R({"qHR", "qIR", "qMR", "qW", "hbr"})
               err == R(1..6) = 1
               n == IF err THEN 0 ELSE R({1, 2, 5, 36, 60, 60})
               b0 == [Blank EXCEPT !.k = k, !.ser = RandSer(z)]
           IN CASE k \in {"hb", "hbr"} -> [b0 EXCEPT !.a = R(0..255)]
                [] k \in Reads -> [b0 EXCEPT !.pad = RandPad(IF err THEN 18 ELSE 138), !.dev = R(0..255), !.err = err, !.inv = RandSer(z),
                                             !.a = R({0, 60, 120, 180, 1000, 65535}), !.b = IF err THEN R(1..60) ELSE n, !.vals = Vals(n)]
                [] k = "W" -> [b0 EXCEPT !.pad = RandPad(138), !.dev = R({17, 49, 50}), !.err = err, !.inv = RandSer(z), !.a = R({20, 94, 0, 7}), !.b = R(0..65535)]
                [] k = "null" -> [b0 EXCEPT !.pad = RandPad(138), !.dev = 17, !.inv = [i \in 1..10 |-> 0], !.vals = [i \in 1..62 |-> 0]]
                [] k = "qW" -> [b0 EXCEPT !.pad = RandPad(8), !.dev = 17, !.a = R(WriteSafe), !.b = R(0..65535)]
                [] OTHER -> [b0 EXCEPT !.pad = RandPad(8), !.dev = R(0..255), !.a = R(0..65535), !.b = R(1..60)]
RandDebris(z) == LET x == R(1..9)
                  f == Encode(RandMsg(z))
              IN CASE x = 1 -> [i \in 1..R(1..40) |-> R(0..255)]
                   [] x = 2 -> SubSeq(f, 1, R(1..Len(f)))                       \* cut off
                   [] x = 3 -> SubSeq(f, R(2..Len(f)), Len(f))                  \* head lost
                   [] x = 4 -> StreamMarker \o Two(R({301, 400, 65535})) \o <<1, 2>>   \* implausible length
                   [] x = 5 -> StreamMarker \o Two(R(0..300)) \o <<R({2, 17, 255}), R({0, 2, 3})>>
                   [] x = 6 -> StreamMarker \o Two(R(0..60)) \o <<R({0, 1}), R({1, 2})>> \o [i \in 1..R(0..30) |-> R(0..255)]
                   [] x = 7 -> SubSeq(StreamMarker, 1, R(1..3))
                   [] x = 8 -> [f EXCEPT ![R(1..Len(f))] = R(0..255)]
                   [] OTHER -> [i \in 1..R(1..30) |-> R({89, 0, 1})]
VARIABLES n, stream
GInit == n = 0 /\ stream = <<>>
\* cut into reads of the given style
RECURSIVE Cuts(_, _, _)
Cuts(b, style, acc) ==
    IF b = <<>> THEN acc
    ELSE LET k0 == CASE style = 1 -> Len(b) [] style = 2 -> R(1..300) [] style = 3 -> R(1..40) [] style = 4 -> R({1, 1, 2, 17, 18, 19, 26, 300}) [] OTHER -> R({4, 300, 1024})
             k == IF k0 > Len(b) THEN Len(b) ELSE k0
         IN Cuts(SubSeq(b, k + 1, Len(b)), style, Append(acc, SubSeq(b, 1, k)))
GNext == /\ n < Steps /\ n' = n + 1
         /\ stream' = stream \o (IF Debris /\ R(1..3) = 1 THEN RandDebris(n) ELSE Encode(RandMsg(n)))
         /\ (n' = Steps => PrintT(<<"BEH", ToJson([side |-> Side, feeds |-> Cuts(stream', R(1..5), <<>>)])>>))
GSpec == GInit /\ [][GNext]_<<n, stream>>
=============================================================================
