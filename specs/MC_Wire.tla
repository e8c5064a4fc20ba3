------------------------------ MODULE MC_Wire ------------------------------
(* The byte layout itself: everything sendable decodes back; damage is noticed. *)
EXTENDS Stream, TLC
CONSTANTS Flip2        \* also try pairs of flipped bits
S1 == <<87, 70, 49, 50, 51, 52, 71, 53, 54, 55>>
S2 == <<83, 65, 49, 50, 51, 52, 71, 53, 54, 55>>
P(n) == <<0, 0, 0, 0, 0, 0, 0, n>>
M(k, dev, err, a, b, vals) == [Blank EXCEPT !.k = k, !.ser = S1, !.pad = IF k \in {"hb", "hbr"} THEN <<>> ELSE P(IF k \in Reads THEN 138 ELSE 8), !.dev = dev, !.err = err,
    !.inv = IF k \in Reads \union {"W", "null"} THEN S2 ELSE <<>>, !.a = a, !.b = b, !.vals = vals]
Const(n, v) == [i \in 1..n |-> v]
Marky(n) == [i \in 1..n |-> IF i % 2 = 1 THEN 22873 ELSE 1]
Pool == {M("hb", 0, FALSE, t, 0, <<>>) : t \in {0, 1, 255}} \union {M("hbr", 0, FALSE, 7, 0, <<>>)}
    \union {M(k, d, FALSE, a, b, <<>>) : k \in Queries, d \in {0, 17, 50, 255}, a \in {0, 60, 256, 65535}, b \in {0, 1, 60, 61}}
    \union {M("qW", 17, FALSE, a, b, <<>>) : a \in {20, 94, 5, 63}, b \in {0, 1, 65535, 65536}}
    \union {M(k, d, FALSE, a, n, v) : k \in Reads, d \in {17, 112}, a \in {0, 60, 65535}, n \in {0, 1, 2, 60}, v \in {Const(1, 0), Marky(2), Marky(60), Const(60, 65535), <<>>}}
    \union {M(k, 17, TRUE, a, n, <<>>) : k \in Reads, a \in {0, 300}, n \in {1, 60}}
    \union {M("W", 17, e, a, v, <<>>) : e \in BOOLEAN, a \in {0, 20, 7}, v \in {0, 65535}}
    \union {[M("null", 17, FALSE, 0, 0, Const(62, 0)) EXCEPT !.inv = Const(10, 0)]}
Good == {m \in Pool : Sendable(m, "int", FALSE)}
Side(m) == IF m.k \in {"hbr", "qW"} \union Queries THEN "s" ELSE "c"

VARIABLES m, bits
Init == m \in Good /\ bits = {}
FlipBit(f, x) == LET j == x \div 8 + 1
                     p == 2 ^ (x % 8) IN [f EXCEPT ![j] = IF (@ \div p) % 2 = 1 THEN @ - p ELSE @ + p]
Small == Len(m.vals) < 3
Next == /\ m.k \in Reads /\ m.b >= 1
        /\ \E x \in 208..(8 * Len(Encode(m)) - 1) : x \notin bits /\ bits' = bits \union {x} /\ Cardinality(bits') <= (IF Flip2 /\ Small /\ ~m.err THEN 2 ELSE 1)
        /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, bits>>
RECURSIVE Apply(_, _)
Apply(f, s) == IF s = {} THEN f ELSE LET x == CHOOSE y \in s : TRUE IN Apply(FlipBit(f, x), s \ {x})
Sans(r) == [r EXCEPT !.chk = 0]
RoundTrip == bits = {} => /\ Sans(Decode(Encode(m), Side(m))) = m
                          /\ Len(Encode(m)) <= 306
                          /\ Fr!Feed(<<>>, Encode(m)).out = <<Encode(m)>> /\ Fr!Feed(<<>>, Encode(m)).buf = <<>>
\* Damage is never taken for registers or for a successful acknowledgement
Noticed == bits # {} =>
    LET r == Decode(Apply(Encode(m), bits), "c")
    IN r.k \in {"err", "null"} \/ (r.k \in Reads /\ (r.bad \/ r.err)) \/ (r.k = "W" /\ r.err)
=============================================================================
