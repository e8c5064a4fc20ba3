------------------------------ MODULE MC_Redact ------------------------------
(***************************************************************************)
(* Exhaustive: every combination of small serial texts in two overlapping   *)
(* groups, and every chunking of a short stream through a capture that may   *)
(* start, stop and lose its connection anywhere.                            *)
(***************************************************************************)
EXTENDS Redact, TLC
CONSTANTS Chunks, Deep

\* no two overlapping groups can both hold a serial
Shifts(bank) == {2 * (b - a) : a \in Groups[bank], b \in Groups[bank]} \cap 1..9
ASSUME \A bank \in DOMAIN Groups : \A k \in Shifts(bank) : \A p \in DOMAIN Forms, q \in DOMAIN Forms :
          \E i \in 1..(10 - k) : Forms[p][i + k] # Forms[q][i]

S1 == <<83, 65, 50, 50, 51, 49, 71, 53, 54, 55>>        \* SA2231G567
S2 == <<69, 77, 83, 50, 50, 51, 49, 53, 54, 55>>        \* EMS2231567
S3 == <<72, 67, 50, 50, 49, 51, 53, 71, 55, 54>>        \* byte-swapped CH2231G567
Low == [S1 EXCEPT ![1] = 115, ![2] = 97]
Odd == [S1 EXCEPT ![3] = 0]
Texts == {S1, S2, S3, Low, Odd, Mask(S1), [i \in 1..10 |-> 0], [S1 EXCEPT ![10] = 65]}

ASSUME \A s \in Texts : Mask(Mask(s)) = Mask(s) /\ ~Reveals(Mask(s)) /\ ~Reveals(Strict(s)) /\ Len(Mask(s)) = Len(s)
ASSUME Strict(Strict(S3)) = Strict(S3)

\* overlapping groups at 1846 and 1848 (and 1851): 18 bytes from 1846
Base == 1846
Windows == {Words(t \o u, 1, 10) : t \in Texts, u \in Texts} \union
           {Words(SubSeq(t, 1, 4) \o u \o SubSeq(t, 5, 10), 1, 10) : t \in Texts, u \in Texts}
Ix == [i \in 1..10 |-> Base + i - 1]
RB(w) == RedactBank("IR", Ix, w)
ASSUME \A w \in Windows :
    /\ RB(RB(w)) = RB(w)
    /\ \A b \in {1846, 1848, 1851} : ~Reveals(Text(SubSeq(RB(w), b - 1845, b - 1841)))
    /\ \A q \in 1..10 : RB(w)[q] # w[q] => \E b \in {1846, 1848, 1851} : q \in (b - 1845)..(b - 1841) /\ Reveals(Text(SubSeq(w, b - 1845, b - 1841)))

\* frames: the redacted frame is as long, decodes to the same message but for the serials, and its checksum holds
Resp(inv, vals, base, err, k) == [Blank EXCEPT !.k = k, !.ser = S1, !.pad = <<0, 0, 0, 0, 0, 0, 0, 138>>, !.dev = 17, !.err = err, !.inv = inv,
                                  !.a = base, !.b = IF err THEN 5 ELSE Len(vals), !.vals = vals]
Msgs == {Resp(i, v, b, FALSE, k) : i \in {S1, S3, Odd}, v \in {Words(t, 1, 5) : t \in Texts}, b \in {13, 110, 1848}, k \in {"HR", "IR"}}
        \union {Resp(S2, Words(S1, 1, 5), 58, FALSE, "MR"), Resp(S2, <<>>, 13, TRUE, "HR")}
        \union {[Blank EXCEPT !.k = "qIR", !.ser = S1, !.pad = <<0, 0, 0, 0, 0, 0, 0, 8>>, !.dev = 50, !.a = 60, !.b = 60],
                [Blank EXCEPT !.k = "hb", !.ser = S1, !.a = 3]}
SideOf(m) == IF m.k = "qIR" THEN "s" ELSE "c"
Anon(m) == [m EXCEPT !.ser = <<>>, !.inv = <<>>, !.vals = <<>>, !.chk = 0]
ASSUME \A m \in Msgs :
    LET f == Encode(m)
        g == RedactFrame(f, SideOf(m))
        n == Decode(g, SideOf(m))
    IN /\ Len(g) = Len(f) /\ Anon(n) = Anon([Decode(f, SideOf(m)) EXCEPT !.bad = FALSE]) /\ ~n.bad
       /\ ~Reveals(n.ser) /\ ~Reveals(n.inv) /\ RedactFrame(g, SideOf(m)) = g

VARIABLES c, pos, seen, lost, ended
vars == <<c, pos, seen, lost, ended>>
HB == Encode([Blank EXCEPT !.k = "hb", !.ser = S1, !.a = 3])
Read == Encode(Resp(S2, Words(S1, 1, 5), 13, FALSE, "HR"))
Streams == IF Deep THEN <<1, 2, 3>> \o HB \o Read \o <<89, 89>> \o HB \o StreamMarker \o <<2, 0, 1, 2>> \o HB ELSE <<1>> \o HB \o Read
Init == c = Idle /\ pos = 0 /\ seen = <<>> /\ lost = FALSE /\ ended = <<>>
Next == \/ \E n \in Chunks : LET to == IF pos + n > Len(Streams) THEN Len(Streams) ELSE pos + n
                                 b == SubSeq(Streams, pos + 1, to)
                             IN pos < Len(Streams) /\ pos' = to /\ c' = Rx(c, b) /\ seen' = (IF c.on THEN seen \o b ELSE seen) /\ UNCHANGED <<lost, ended>>
        \/ ~c.on /\ ended = <<>> /\ c' = Start(c) /\ seen' = <<>> /\ UNCHANGED <<pos, lost, ended>>
        \/ c.on /\ c' = Stop(c) /\ ended' = c'.grx /\ UNCHANGED <<pos, seen, lost>>
        \/ c.on /\ ~lost /\ c' = Flush(c) /\ lost' = TRUE /\ UNCHANGED <<pos, seen, ended>>
Spec == Init /\ [][Next]_vars
\* nothing seen is lost, nothing is invented, nothing after the end
Conserved == (c.on => Len(c.grx) + Len(c.rx) = Len(seen)) /\ (~c.on => c.rx = <<>> /\ c.grx = ended)
\* cut points do not matter: what came out so far is what the whole so far gives
Independent == (c.on /\ ~lost) => LET w == Pass(seen, <<>>, "c") IN c.grx \o c.rx = w.out \o w.buf
\* every frame wholly inside the capture is anonymous
Hidden(f) == \A i \in 1..(Len(c.grx) - Len(f) + 1) : SubSeq(c.grx, i, i + Len(f) - 1) # f
Anonymous == ~lost /\ c.on /\ Len(c.rx) = 0 => Hidden(HB) /\ Hidden(Read)
Whole == (~c.on /\ ended # <<>> /\ ~lost /\ pos = Len(Streams) /\ seen = Streams) => Hidden(HB) /\ Hidden(Read)
=============================================================================
