------------------------------- MODULE Redact -------------------------------
(***************************************************************************)
(* Removing what identifies an installation: from register caches, from a   *)
(* plant's header fields, and from a captured byte stream; and the life of   *)
(* a capture.  Strings are sequences of character codes.                    *)
(***************************************************************************)
EXTENDS Stream

(* The three forms a GivEnergy serial takes; the unit digits identify the unit.  *)
(* The third is the first with the two bytes of each register swapped.           *)
Forms == [std |-> <<"L", "L", "D", "D", "D", "D", "L", "D", "D", "D">>,
          ems |-> <<"L", "L", "L", "D", "D", "D", "D", "D", "D", "D">>,
          swp |-> <<"L", "L", "D", "D", "D", "D", "D", "L", "D", "D">>]
Unit == [std |-> {8, 9, 10}, ems |-> {8, 9, 10}, swp |-> {7, 9, 10}]
Class(c) == IF c \in 65..90 THEN "L" ELSE IF c \in 48..57 THEN "D" ELSE "x"
FormOf(s) == IF Len(s) # 10 THEN {} ELSE {f \in DOMAIN Forms : \A i \in 1..10 : Class(s[i]) = Forms[f][i]}
Known(s) == FormOf(s) # {}
Mask(s) == IF ~Known(s) THEN s
           ELSE LET f == CHOOSE x \in FormOf(s) : TRUE IN [i \in 1..10 |-> IF i \in Unit[f] THEN 48 ELSE s[i]]
Reveals(s) == Mask(s) # s
Strict(s) == IF Known(s) THEN Mask(s) ELSE <<>>         \* a field that holds nothing but a serial

(* Upper-casing of the latin-1 text a register group spells (NULs do not count) *)
Up(c) == IF c \in 97..122 \/ (c \in 224..254 /\ c # 247) THEN <<c - 32>> ELSE IF c = 223 THEN <<83, 83>> ELSE IF c \in {181, 255} THEN <<c + 1000>> ELSE <<c>>
Text(ws) == FoldLeft(LAMBDA a, b : IF b = 0 THEN a ELSE a \o Up(b), <<>>, Bytes(ws))

(* Where serials live: five registers each *)
Groups == [HR |-> {8, 13},
           IR |-> {110, 114, 138, 1627, 1841, 1846, 1848, 1851, 1855, 2066, 2071, 2076, 2081} \union {114 + 120 * i : i \in 1..7},
           MR |-> {}]
ProductId == {60, 61}                                   \* of a meter (MR): no recognisable form, always blanked
GroupWords(ws) == LET t == Text(ws) IN IF Reveals(t) THEN Words(Mask(t), 1, 5) ELSE ws

(* A bank as parallel sequences: ascending indices and values (-1: none) *)
PosOf(ix, b) == {p \in 1..(Len(ix) - 4) : ix[p] = b /\ ix[p + 4] = b + 4}
RedactBank(bank, ix, vs) ==
    LET whole == {p \in UNION {PosOf(ix, b) : b \in Groups[bank]} : \A j \in 0..4 : vs[p + j] >= 0}
        hits == {p \in whole : Reveals(Text(SubSeq(vs, p, p + 4)))}
        new(p) == GroupWords(SubSeq(vs, p, p + 4))
    IN [q \in 1..Len(ix) |->
          IF bank = "MR" /\ ix[q] \in ProductId /\ vs[q] >= 0 THEN 0
          ELSE IF \E p \in hits : q \in p..(p + 4) THEN (LET p == CHOOSE x \in hits : q \in x..(x + 4) IN new(p)[q - p + 1])
          ELSE vs[q]]

(* One captured frame: patched in place, so length and boundaries never change *)
Put(f, at, s) == [i \in 1..Len(f) |-> IF i >= at /\ i < at + Len(s) THEN s[i - at + 1] ELSE f[i]]
RedactFrame(f, side) ==
    LET m == Decode(f, side)
        g1 == Put(f, 9, Ten(Strict(m.ser)))
        g2 == Put(g1, 29, Ten(Strict(m.inv)))
        n == Len(m.vals)
        ix == [i \in 1..n |-> m.a + i - 1]
        g3 == IF m.k \in Reads /\ n > 0 THEN Put(g2, 43, Bytes(RedactBank(m.k, ix, m.vals))) ELSE g2
        sealed(g, p) == Put(g, p, Two(CheckWord(SubSeq(g, 27, p - 1))))
    IN CASE m.k = "err" -> f
         [] m.k \in {"hb", "hbr"} -> g1
         [] m.k = "lan" -> [i \in 1..Len(f) |-> IF i >= 26 /\ i <= Len(f) - 2 /\ Class(g1[i]) = "D" THEN 48 ELSE g1[i]]
         [] m.k \in Reads -> sealed(g3, 43 + 2 * n)
         [] m.k = "W" -> sealed(g2, 43)
         [] m.k = "null" -> sealed(g2, 163)
         [] OTHER -> sealed(g1, 33)

(* The stream: frames are found exactly where the framer finds them, everything *)
(* else passes through.                                                         *)
RECURSIVE Pass(_, _, _)
Pass(b, out, side) ==
    IF Len(b) < 18 THEN [buf |-> b, out |-> out]
    ELSE IF ~Fr!MarkAt(b, 1)
         THEN LET later == Fr!Marks(b, 2, Len(b))
                  at == IF later = {} THEN Len(b) - 2 ELSE Fr!Least(later)
                  r == [buf |-> Fr!From(b, at), out |-> out \o SubSeq(b, 1, at - 1)]
              IN IF later = {} THEN r ELSE Pass(r.buf, r.out, side)
    ELSE LET near == Fr!Marks(b, 2, 18)
             at == IF near # {} THEN Fr!Least(near) ELSE 5
         IN IF near # {} \/ ~StreamPlausible(b) THEN Pass(Fr!From(b, at), out \o SubSeq(b, 1, at - 1), side)
            ELSE IF Len(b) < StreamFrameLen(b) THEN [buf |-> b, out |-> out]
            ELSE Pass(Fr!From(b, StreamFrameLen(b) + 1), out \o RedactFrame(SubSeq(b, 1, StreamFrameLen(b)), side), side)

(* ---- the life of a capture ------------------------------------------------ *)
Idle == [on |-> FALSE, rx |-> <<>>, tx |-> <<>>, grx |-> <<>>, gtx |-> <<>>]
Start(c) == [Idle EXCEPT !.on = TRUE]
Rx(c, b) == IF ~c.on THEN c ELSE LET r == Pass(c.rx \o b, <<>>, "c") IN [c EXCEPT !.rx = r.buf, !.grx = c.grx \o r.out]
Tx(c, b) == IF ~c.on THEN c ELSE LET r == Pass(c.tx \o b, <<>>, "s") IN [c EXCEPT !.tx = r.buf, !.gtx = c.gtx \o r.out]
\* a new connection starts a new byte stream in both directions; so does the end of the capture
Flush(c) == [c EXCEPT !.rx = <<>>, !.tx = <<>>, !.grx = c.grx \o c.rx, !.gtx = c.gtx \o c.tx]
Stop(c) == [Flush(c) EXCEPT !.on = FALSE]
=============================================================================
