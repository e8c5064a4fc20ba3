-------------------------------- MODULE Bank --------------------------------
(***************************************************************************)
(* The plant as a register store: what every kind of incoming message does  *)
(* to the cached registers, freshness stamps, presence markers, content     *)
(* clocks, serial numbers and corruption counters.                          *)
(*                                                                         *)
(* Register keys: r for HR(r), 65536 + r for IR(r).  Times in ms.           *)
(* Serial numbers are sequences of bytes.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == INSTANCE Splice

Key(kind, r) == IF kind = "HR" THEN r ELSE 65536 + r
Empty == [x \in {} |-> 0]
Val(f, x) == IF x \in DOMAIN f THEN f[x] ELSE -1
CacheOf(s, dev) == IF dev \in DOMAIN s.cache THEN s.cache[dev] ELSE Empty
PackOf(s, dev) == IF dev \in DOMAIN s.packs THEN s.packs[dev] ELSE S!PackInit
Put(f, x, v) == (x :> v) @@ f
Drop(f, xs) == [x \in DOMAIN f \ xs |-> f[x]]

NoCaps == [has |-> FALSE, inv |-> 17, bcu |-> -1, bmu |-> {}]
Init0 == [cache |-> Empty, stamp |-> Empty, present |-> Empty, since |-> Empty, packs |-> Empty, crc |-> Empty,
          invser |-> <<>>, adapter |-> <<>>, caps |-> NoCaps]

(* Which kind of device lives at an address; decides which words identify it *)
ClassOf(dev, caps) ==
    CASE caps.has /\ dev = caps.inv -> "inverter"
      [] caps.has /\ dev = caps.bcu -> "lvbcu"
      [] caps.has /\ dev \in caps.bmu -> "bmu"
      [] ~caps.has /\ dev \in {17, 49} -> "inverter"
      [] dev \in 50..55 -> "battery"
      [] dev \in 112..143 -> "bcu"
      [] OTHER -> "other"
SerialKeys(class) ==
    CASE class = "inverter" -> [k \in 1..5 |-> Key("HR", 12 + k)]
      [] class = "battery" -> [k \in 1..5 |-> Key("IR", 109 + k)]
      [] class = "bmu" -> [k \in 1..5 |-> Key("IR", 113 + k)]
      [] class = "bcu" -> [k \in 1..5 |-> Key("IR", 137 + k)]
      [] OTHER -> <<>>
IsSerial(ws) == /\ \A i \in 1..Len(ws) : ws[i] >= 0
                /\ \A i \in 1..Len(ws) : S!IsAlnum(ws[i] \div 256) /\ S!IsAlnum(ws[i] % 256)
Upper(b) == IF b \in 97..122 THEN b - 32 ELSE b
RECURSIVE SerialBytes(_)
SerialBytes(ws) == IF ws = <<>> THEN <<>>
                   ELSE <<Upper(ws[1] \div 256), Upper(ws[1] % 256)>> \o SerialBytes(Tail(ws))

(* A dongle substitutes a canned network page for a register page: 17 fixed words *)
Canned == << <<28, {19506}>>, <<30, {41241}>>, <<31, {13546}>>, <<32, {59263}>>, <<33, {54389}>>, <<35, {17664}>>,
             <<40, {58617, 46617}>>, <<41, {49320}>>, <<43, {49320}>>, <<46, {50665}>>, <<50, {24815, 20540}>>, <<51, {32792}>>,
             <<52, {17376}>>, <<53, {63182}>>, <<56, {2058}>>, <<58, {64705}>>, <<59, {26142}>> >>
IsCanned(base, w) ==
    /\ base % 60 = 0 /\ Len(w) = 60
    /\ Cardinality({i \in 1..17 : w[Canned[i][1] + 1] \in Canned[i][2]}) > 5

Out(s, ok, why) == [s |-> s, ok |-> ok, why |-> why]

(* ---- registers ------------------------------------------------------------ *)
Keys(kind, base, n) == {Key(kind, base + j) : j \in 0..(n - 1)}
Incoming(kind, base, w) == [x \in Keys(kind, base, Len(w)) |-> w[x - Key(kind, base) + 1]]
PackCache(c) == [i \in 1..60 |-> Val(c, Key("IR", 59 + i))]

\* Verdict on a response whose registers are not (wholly) a battery block
Generic(s, dev, kind, base, w) ==
    LET c == CacheOf(s, dev)
        inc == Incoming(kind, base, w)
        merged == inc @@ c
        sk == SerialKeys(ClassOf(dev, s.caps))
        full == Len(w) >= 60
    IN IF full /\ (\A i \in 1..Len(w) : w[i] = 0) /\ (\E x \in DOMAIN inc : Val(c, x) > 0) THEN [ok |-> FALSE, why |-> "all-zero"]
       ELSE IF full /\ dev \in 50..55 /\ kind = "IR" /\ base = 60 /\ S!Impossible(w, 0..59) THEN [ok |-> FALSE, why |-> "impossible"]
       ELSE IF /\ \E i \in 1..Len(sk) : sk[i] \in DOMAIN inc
               /\ ~IsSerial([i \in 1..Len(sk) |-> Val(merged, sk[i])]) THEN [ok |-> FALSE, why |-> "bad-serial"]
       ELSE [ok |-> TRUE, why |-> "commit"]

Stamped(s, dev, kind, base, w, ts) ==
    LET k == <<dev, kind, base, Len(w)>>
        old == IF k \in DOMAIN s.since THEN s.since[k] ELSE [w |-> <<>>, t |-> -1]
    IN [s EXCEPT !.stamp = Put(@, k, ts), !.present = Put(@, k, TRUE),
                 !.since = IF old.t >= 0 /\ old.w = w THEN @ ELSE Put(@, k, [w |-> w, t |-> ts])]

Commit(s, dev, kind, base, w, ts) ==
    Stamped([s EXCEPT !.cache = Put(@, dev, Incoming(kind, base, w) @@ CacheOf(s, dev))], dev, kind, base, w, ts)

\* cfg: the battery guard's heal settings
Store(s, dev, kind, base, w, ts, cfg) ==
    IF ClassOf(dev, s.caps) = "battery" /\ kind = "IR" /\ base >= 60 /\ base + Len(w) <= 120
    THEN LET p == [PackOf(s, dev) EXCEPT !.cache = PackCache(CacheOf(s, dev))]
             o == S!Offer(p, base - 60, w, ts, cfg)
             s1 == [s EXCEPT !.packs = Put(@, dev, o.p)]
         IN IF o.serve THEN Out(Commit(s1, dev, kind, base, w, ts), TRUE, o.why) ELSE Out(s1, FALSE, o.why)
    ELSE LET v == Generic(s, dev, kind, base, w)
         IN IF v.ok THEN Out(Commit(s, dev, kind, base, w, ts), TRUE, v.why) ELSE Out(s, FALSE, v.why)

Adopt(s, m) == [s EXCEPT !.adapter = m.ada, !.invser = IF m.dev \in {17, 49} THEN m.inv ELSE @]

(***************************************************************************)
(* Receive: an incoming message m.                                          *)
(*  m.k: "HR" / "IR" / "MR" register read responses, "W" write response,    *)
(*       "other" anything that is no addressed register message             *)
(***************************************************************************)
Receive(s, m, cfg) ==
    CASE m.k = "other" -> Out(s, FALSE, "ignored")
      [] m.err -> Out(s, FALSE, "error")
      [] m.bad /\ m.k # "W" ->
           Out([s EXCEPT !.crc = Put(@, m.dev, 1 + (IF m.dev \in DOMAIN @ THEN @[m.dev] ELSE 0))], FALSE, "damaged")
      [] m.k = "MR" -> Out(Adopt(s, m), FALSE, "meter-product")
      [] m.k = "IR" /\ IsCanned(m.base, m.w) -> Out(Adopt(s, m), FALSE, "canned")
      [] m.k \in {"HR", "IR"} -> Store(Adopt(s, m), m.dev, m.k, m.base, m.w, m.ts, cfg)
      [] m.k = "W" ->
           LET s1 == Adopt(s, m)
               to == IF s.caps.has THEN s.caps.inv ELSE m.dev
           IN IF m.base = 0 THEN Out(s1, FALSE, "write-zero")
              ELSE Out([s1 EXCEPT !.cache = Put(@, to, Put(CacheOf(s1, to), m.base, m.w[1]))], TRUE, "write")

MarkAbsent(s, dev, kind, base, n) == [s EXCEPT !.present = Put(@, <<dev, kind, base, n>>, FALSE)]

Invalidate(s, dev, kind, base, n) ==
    LET k == <<dev, kind, base, n>>
        p == PackOf(s, dev)
    IN [s EXCEPT !.stamp = Drop(@, {k}), !.present = Drop(@, {k}), !.since = Drop(@, {k}),
                 !.cache = IF dev \in DOMAIN @ THEN [@ EXCEPT ![dev] = Drop(@, Keys(kind, base, n))] ELSE @,
                 !.packs = IF kind = "IR" /\ base = 60 /\ n = 60 /\ dev \in DOMAIN @ THEN Put(@, dev, S!NoPend(p)) ELSE @]

(* ---- what a user sees --------------------------------------------------------- *)
Age(s, k, now) == IF k \in DOMAIN s.stamp THEN now - s.stamp[k] ELSE -1
Unchanged(s, k, now) == IF k \in DOMAIN s.since THEN now - s.since[k].t ELSE -1
Present(s, k) == IF k \in DOMAIN s.present THEN (IF s.present[k] THEN 1 ELSE 0) ELSE -1
Min(S1) == CHOOSE x \in S1 : \A y \in S1 : x <= y
RegisterAge(s, dev, kind, r, now) ==
    LET ks == {k \in DOMAIN s.stamp : k[1] = dev /\ k[2] = kind /\ k[3] <= r /\ r < k[3] + k[4]}
    IN IF ks = {} THEN -1 ELSE Min({now - s.stamp[k] : k \in ks})
NewestAge(s, now) == IF DOMAIN s.stamp = {} THEN -1 ELSE Min({now - s.stamp[k] : k \in DOMAIN s.stamp})
InverterSerial(s) ==
    LET try(dev) == [i \in 1..5 |-> Val(CacheOf(s, dev), 12 + i)]
        order == IF s.caps.has /\ s.caps.inv \in {17, 49} THEN <<s.caps.inv, 17>> ELSE <<17>>
        good == {i \in 1..Len(order) : IsSerial(try(order[i]))}
    IN IF good # {} THEN SerialBytes(try(order[Min(good)])) ELSE s.invser
=============================================================================
