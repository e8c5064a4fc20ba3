-------------------------------- MODULE Mock --------------------------------
(***************************************************************************)
(* The mock plant: what it is seeded with, what it answers, and how a value  *)
(* displayed from a sentinel seed leads back to its register.                *)
(*                                                                           *)
(* Registers are keyed as in Bank (HR(r) = r, IR(r) = 65536 + r), and MR(r)   *)
(* is 131072 + r.  A seed maps device addresses to such registers.            *)
(***************************************************************************)
EXTENDS Stream
B == INSTANCE Bank

RegKey(kind, r) == IF r > 65535 THEN -1 ELSE CASE kind = "HR" -> r [] kind = "IR" -> 65536 + r [] OTHER -> 131072 + r
Known(seed, d) == IF d \in DOMAIN seed THEN seed[d] ELSE B!Empty
Kept(seed) == [d \in {d \in DOMAIN seed : DOMAIN seed[d] # {}} |-> seed[d]]

(* ---- answers ----------------------------------------------------------------*)
KindOf(q) == CASE q = "qHR" -> "HR" [] q = "qIR" -> "IR" [] OTHER -> "MR"
Nil == <<>>
\* the answer to a request that arrived whole; "maybe": an address about which nothing is known
Answer(seed, m) ==
    IF m.k = "qW" THEN <<[k |-> "W", dev |-> m.dev, err |-> FALSE, a |-> m.a, b |-> m.b, vals |-> <<>>, maybe |-> FALSE]>>
    ELSE IF m.k \notin Queries \/ m.dev \notin DOMAIN seed THEN Nil
    ELSE LET c == seed[m.dev]
             keys == [j \in 1..m.b |-> RegKey(KindOf(m.k), m.a + j - 1)]
         IN IF \A j \in 1..m.b : keys[j] \in DOMAIN c
            THEN <<[k |-> KindOf(m.k), dev |-> m.dev, err |-> FALSE, a |-> m.a, b |-> m.b, vals |-> [j \in 1..m.b |-> c[keys[j]]], maybe |-> FALSE]>>
            ELSE <<[k |-> KindOf(m.k), dev |-> m.dev, err |-> TRUE, a |-> m.a, b |-> m.b, vals |-> <<>>, maybe |-> DOMAIN c = {}]>>
Answers(seed, ms) == FlattenSeq([j \in DOMAIN ms |-> Answer(seed, ms[j])])

\* f is a frame that says exactly what is wanted, in the name of this inverter and adapter
Says(want, ident, f) ==
    LET g == Decode(f, "c")
    IN /\ Len(f) = StreamFrameLen(f) /\ g.k = want.k /\ g.dev = want.dev /\ g.err = want.err /\ g.a = want.a /\ ~g.bad
       /\ CheckWord(SubSeq(f, 27, Len(f) - 2)) = Word(f, Len(f) - 1)
       /\ g.ser = Ten(ident.ada) /\ g.inv = Ten(ident.inv)
       /\ (want.err => g.pad[8] = 18)
       /\ (want.err \/ (g.b = want.b /\ g.vals = want.vals))
RECURSIVE AllSaid(_, _, _)
AllSaid(ws, ident, fs) ==
    IF ws = <<>> THEN fs = <<>>
    ELSE (fs # <<>> /\ Says(Head(ws), ident, Head(fs)) /\ AllSaid(Tail(ws), ident, Tail(fs))) \/ (Head(ws).maybe /\ AllSaid(Tail(ws), ident, fs))

(* ---- a seed from captures -----------------------------------------------------*)
\* lines: <<[t |-> time, rx |-> received, ok |-> hex readable, b |-> bytes]>>, of all files, in order
RECURSIVE Before(_, _)
Before(sorted, l) == IF sorted # <<>> /\ sorted[Len(sorted)].t > l.t THEN Before(SubSeq(sorted, 1, Len(sorted) - 1), l) ELSE Len(sorted)
ByTime(lines) == FoldLeft(LAMBDA s, l : LET n == Before(s, l) IN SubSeq(s, 1, n) \o <<l>> \o SubSeq(s, n + 1, Len(s)), <<>>, SelectSeq(lines, LAMBDA l : l.rx /\ l.ok))
Received(lines) == Fr!Feed(<<>>, FlattenSeq([j \in DOMAIN ByTime(lines) |-> ByTime(lines)[j].b])).out
Cfg == [heal |-> 900000, surge |-> -1]
AsMessage(m) == [k |-> IF m.k \in {"HR", "IR", "MR", "W"} THEN m.k ELSE "other", dev |-> m.dev, base |-> m.a, w |-> IF m.k = "W" THEN <<m.b>> ELSE m.vals,
                 err |-> m.err, bad |-> m.bad, inv |-> m.inv, ada |-> m.ser, ts |-> 0, null |-> m.k = "null"]
Absorb(frames) == FoldLeft(LAMBDA s, f : B!Receive(s, AsMessage(Decode(f, "c")), Cfg).s, B!Init0, frames)
FromCapture(lines) == LET s == Absorb(Received(lines)) IN [devs |-> s.cache, inv |-> s.invser, ada |-> s.adapter, any |-> Received(lines) # <<>>]

(* ---- devices of one kind are told apart ------------------------------------------*)
Letters(ws) == FlattenSeq([j \in DOMAIN ws |-> Two(ws[j])])
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] = 32 THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Text(c, keys) == IF \E j \in DOMAIN keys : keys[j] \notin DOMAIN c THEN <<>>
                 ELSE LET t == TrimR(TrimL(SelectSeq(Letters([j \in DOMAIN keys |-> c[keys[j]]]), LAMBDA x : x # 0))) IN [j \in DOMAIN t |-> B!Upper(t[j])]
IrRun(from) == [j \in 1..5 |-> 65536 + from + j - 1]
Here(seed, ds, keys) == {<<d, keys>> : d \in DOMAIN seed \cap ds}
Groups(seed) == {Here(seed, (IF {17, 49} \cap DOMAIN seed # {} THEN 50 ELSE 51)..55, IrRun(110)), Here(seed, 80..111, IrRun(114)),
                 Here(seed, {17}, IrRun(2066)) \cup Here(seed, {17}, IrRun(2071)) \cup Here(seed, {17}, IrRun(2076)) \cup Here(seed, {17}, IrRun(2081))}
Of(seed, g) == Text(Known(seed, g[1]), g[2])
Distinct(seed, G) == \A g, h \in {g \in G : Of(seed, g) # <<>>} : g # h => Of(seed, g) # Of(seed, h)
TellApart(old, new) ==
    /\ DOMAIN old = DOMAIN new
    /\ \A d \in DOMAIN old : DOMAIN old[d] = DOMAIN new[d]
    /\ \A d \in DOMAIN old : \A x \in DOMAIN old[d] : old[d][x] = new[d][x] \/ \E G \in Groups(old) : ~Distinct(old, G) /\ \E g \in G : g[1] = d /\ x \in {g[2][j] : j \in 1..5} /\ Len(Of(old, g)) >= 2
    /\ \A G \in Groups(old) : ~Distinct(old, G) =>
         LET named == {g \in G : Len(Of(old, g)) >= 2}
         IN /\ \A g \in named : Len(Of(new, g)) = Len(Of(old, g)) /\ SubSeq(Of(new, g), 1, Len(Of(new, g)) - 2) = SubSeq(Of(old, g), 1, Len(Of(old, g)) - 2)
            /\ \A g, h \in named : g # h => Of(new, g) # Of(new, h)

(* ---- a seed written down -----------------------------------------------------------*)
\* banks: <<[dev |-> , kind |-> , base |-> , vals |-> <<>>]>>
RECURSIVE Written(_, _)
Written(banks, seed) ==
    IF banks = <<>> THEN seed
    ELSE LET b == Head(banks) IN Written(Tail(banks), B!Put(seed, b.dev, [x \in {RegKey(b.kind, b.base + j - 1) : j \in DOMAIN b.vals} |->
              b.vals[CHOOSE j \in DOMAIN b.vals : RegKey(b.kind, b.base + j - 1) = x]] @@ Known(seed, b.dev)))
BankMessage(b, ident) == [k |-> b.kind, dev |-> b.dev, base |-> b.base, w |-> b.vals, err |-> FALSE, bad |-> FALSE, inv |-> ident.inv, ada |-> ident.ada, ts |-> 0, null |-> FALSE]
\* would a client that reads everything twice hold what is served?
Ingested(banks, ident) ==
    LET once(s) == FoldLeft(LAMBDA a, b : B!Receive(a, BankMessage(b, ident), Cfg).s, s, banks)
        s == once(once(B!Init0))
    IN \A j \in DOMAIN banks : \A n \in DOMAIN banks[j].vals : B!Val(B!CacheOf(s, banks[j].dev), RegKey(banks[j].kind, banks[j].base + n - 1)) = banks[j].vals[n]
Servable(banks) == \A j \in DOMAIN banks : \A n \in DOMAIN banks[j].vals : U16(banks[j].vals[n])
Acceptable(banks, verify, ident) == Servable(banks) /\ (verify => (\A j \in DOMAIN banks : banks[j].kind # "MR") /\ Ingested(banks, ident))

(* ---- sentinels ------------------------------------------------------------------------*)
\* overlay: <<[dev |-> , kind |-> , lo |-> , hi |-> ]>>, lo..hi inclusive
Fits(overlay, offset) == \A j \in DOMAIN overlay : \A a \in overlay[j].lo..overlay[j].hi : U16(a + offset)
RECURSIVE Overlaid(_, _, _)
Overlaid(overlay, offset, seed) ==
    IF overlay = <<>> THEN seed
    ELSE LET o == Head(overlay)
             back(x) == x % 65536
         IN Overlaid(Tail(overlay), offset, B!Put(seed, o.dev, [x \in {RegKey(o.kind, a) : a \in o.lo..o.hi} |-> back(x) + offset] @@ Known(seed, o.dev)))
\* scales and displayed values in thousandths
Scales == {1, 10, 100, 1000}
Within(r, a) == a \in 0..65535 /\ (r = <<>> \/ a \in r[1][1]..r[1][2])
OnePass(d, r) == {<<d \div s, s>> : s \in {s \in Scales : d % s = 0 /\ Within(r, d \div s)}}
\* whole numbers a thousandth away: the display may have been rounded
Nearly(d, r) == {<<a, 1000>> : a \in {a \in {(d + 1) \div 1000, (d - 1) \div 1000} : (d - a * 1000) \in {-1, 1} /\ Within(r, a)}}
\* where the two displayed values differ by exactly k units of a scale, that scale is meant; where no
\* scale comes near, nothing is; <<TRUE, answers>> or <<FALSE, >> when neither can be said
TwoPass(d1, d2, k, r) ==
    LET exact == {s \in Scales : d2 - d1 = k * s}
    IN IF d2 <= d1 THEN <<TRUE, {}>>
       ELSE IF exact # {} THEN <<TRUE, {<<d1 \div s, s>> : s \in {s \in exact : d1 % s = 0 /\ Within(r, d1 \div s)}}>>
       ELSE IF \A s \in Scales : (d2 - d1) \div k > s + 1 \/ (d2 - d1) \div k < s - 2 THEN <<TRUE, {}>>
       ELSE <<FALSE, {}>>
=============================================================================
