------------------------------- MODULE MC_Bank -------------------------------
(* Exhaustive exploration of the register store over a pool of messages. *)
EXTENDS Bank, Json

CONSTANTS MaxSteps, Small

SA == <<83, 65, 49, 50, 51, 52, 71, 53, 54, 55>>
BAT == <<66, 71, 50, 50, 51, 54, 68, 49, 49, 49>>
WF == <<87, 70, 49, 50, 51, 52, 71, 53, 54, 55>>
WX == <<87, 88, 49, 50, 51, 52, 71, 53, 54, 56>>
Words(b) == [i \in 1..5 |-> b[2 * i - 1] * 256 + b[2 * i]]
Page(n, g) == [i \in 1..n |-> IF (i - 1) \in DOMAIN g THEN g[i - 1] ELSE 0]
At5(off, b) == [i \in off..(off + 4) |-> Words(b)[i - off + 1]]
Zero(n) == [i \in 1..n |-> 0]
CannedPage == Page(60, 28 :> 19506 @@ 30 :> 41241 @@ 31 :> 13546 @@ 41 :> 49320 @@ 43 :> 49320 @@ 59 :> 26142)
NearlyCanned == Page(60, 28 :> 19506 @@ 30 :> 41241 @@ 31 :> 13546 @@ 41 :> 49320 @@ 43 :> 49320 @@ 59 :> 26141)
Pack == Page(60, [i \in 0..15 |-> 3300] @@ [i \in 16..19 |-> 250] @@ 20 :> 52800 @@ 21 :> 300 @@ 23 :> 52700 @@ 37 :> 16 @@ 38 :> 3005
                 @@ 40 :> 60 @@ 43 :> 250 @@ 44 :> 240 @@ At5(50, BAT))

M0(k, dev, base, w) == [k |-> k, dev |-> dev, base |-> base, w |-> w, err |-> FALSE, bad |-> FALSE, null |-> FALSE, inv |-> SA, ada |-> WF]
Pool == <<
    M0("HR", 17, 0, Page(60, 0 :> 8193 @@ At5(13, SA) @@ 21 :> 449)),
    M0("HR", 17, 0, Page(60, 0 :> 8193 @@ At5(13, SA) @@ 21 :> 450 @@ 50 :> 7)),
    M0("HR", 17, 0, Page(60, 0 :> 8193 @@ At5(13, SA) @@ 15 :> 8224)),               \* blank characters in the serial
    M0("HR", 17, 0, Zero(60)),
    M0("HR", 17, 15, <<13106>>),                                                     \* one serial word alone
    M0("HR", 17, 15, <<0>>),
    M0("HR", 17, 60, Page(60, 35 :> 5)),
    M0("HR", 17, 60, Zero(60)),
    M0("HR", 17, 94, <<0, 0>>),
    M0("IR", 17, 0, CannedPage), M0("IR", 17, 0, NearlyCanned), M0("HR", 17, 0, [CannedPage EXCEPT ![1] = 1]),
    M0("IR", 17, 60, Page(60, 0 :> 3)),
    [M0("IR", 50, 60, Pack) EXCEPT !.inv = BAT],
    [M0("IR", 50, 60, [Pack EXCEPT ![53] = 0]) EXCEPT !.inv = BAT],
    [M0("IR", 50, 60, Zero(60)) EXCEPT !.inv = BAT],
    [M0("IR", 50, 60, [i \in 1..60 |-> IF i <= 16 THEN 0 ELSE Pack[i]]) EXCEPT !.inv = BAT],
    [M0("IR", 50, 100, <<61>>) EXCEPT !.inv = BAT],
    [M0("IR", 5, 60, Page(30, 0 :> 2400)) EXCEPT !.inv = <<0,0,0,0,0,0,0,0,0,0>>, !.ada = WX],
    [M0("IR", 5, 60, Zero(30)) EXCEPT !.inv = <<0,0,0,0,0,0,0,0,0,0>>],
    [M0("MR", 5, 60, <<16705, 12593>>) EXCEPT !.inv = <<0,0,0,0,0,0,0,0,0,0>>],
    [M0("IR", 112, 120, Page(60, At5(18, BAT))) EXCEPT !.inv = BAT],
    [M0("IR", 112, 120, Page(60, 3 :> 1)) EXCEPT !.inv = BAT],
    [M0("IR", 80, 60, Page(60, 0 :> 3301 @@ At5(54, BAT))) EXCEPT !.inv = BAT],
    [M0("IR", 80, 60, Page(60, 0 :> 3301)) EXCEPT !.inv = BAT],
    M0("HR", 49, 0, Page(60, 0 :> 8193 @@ At5(13, SA))),
    [M0("HR", 17, 0, Page(60, 0 :> 9999)) EXCEPT !.bad = TRUE, !.inv = BAT, !.ada = WX],
    [M0("IR", 5, 60, Page(30, 0 :> 1)) EXCEPT !.bad = TRUE, !.ada = WX],
    [M0("IR", 17, 0, <<>>) EXCEPT !.err = TRUE, !.inv = BAT, !.ada = WX],
    [M0("other", 17, 0, <<>>) EXCEPT !.null = TRUE, !.ada = WX], M0("other", 0, 0, <<>>),
    M0("W", 17, 94, <<130>>), M0("W", 17, 0, <<3>>), M0("W", 49, 96, <<1>>), [M0("W", 17, 96, <<1>>) EXCEPT !.err = TRUE],
    [M0("W", 50, 96, <<0>>) EXCEPT !.inv = BAT], M0("W", 17, 15, <<0>>)
>>
Ops == << [k |-> "absent", dev |-> 50, kind |-> "IR", base |-> 60, n |-> 60],
          [k |-> "absent", dev |-> 17, kind |-> "HR", base |-> 60, n |-> 60],
          [k |-> "inval", dev |-> 50, kind |-> "IR", base |-> 60, n |-> 60],
          [k |-> "inval", dev |-> 17, kind |-> "HR", base |-> 0, n |-> 60],
          [k |-> "inval", dev |-> 17, kind |-> "HR", base |-> 60, n |-> 60],
          [k |-> "inval", dev |-> 5, kind |-> "IR", base |-> 60, n |-> 30],
          [k |-> "caps", has |-> TRUE, inv |-> 17, bcu |-> -1, bmu |-> {}],
          [k |-> "caps", has |-> TRUE, inv |-> 49, bcu |-> -1, bmu |-> {80}],
          [k |-> "caps", has |-> TRUE, inv |-> 17, bcu |-> 50, bmu |-> {80}],
          [k |-> "caps", has |-> FALSE, inv |-> 17, bcu |-> -1, bmu |-> {}] >>
Letter(x) == IF x <= Len(Pool) THEN Pool[x] ELSE Ops[x - Len(Pool)]
Letters == 1..(Len(Pool) + Len(Ops))

VARIABLES s, n, now, ev
vars == <<s, n, now, ev>>
View == <<[s EXCEPT !.stamp = [k \in DOMAIN @ |-> 0], !.since = [k \in DOMAIN @ |-> @[k].w],
                    !.packs = [d \in DOMAIN @ |-> [@[d] EXCEPT !.seen = IF @ < 0 THEN -1 ELSE now - @, !.pendAt = IF @ < 0 THEN -1 ELSE now - @,
                                                    !.rejected = 0, !.held = 0, !.cold = 0]]], n>>
Cfg == [heal |-> 60000, surge |-> -1]
Init == s = Init0 /\ n = 0 /\ now = 0 /\ ev = [e |-> [k |-> "none"], ok |-> FALSE, why |-> ""]

Apply(e, t) ==
    CASE e.k = "absent" -> Out(MarkAbsent(s, e.dev, e.kind, e.base, e.n), TRUE, "absent")
      [] e.k = "inval" -> Out(Invalidate(s, e.dev, e.kind, e.base, e.n), TRUE, "inval")
      [] e.k = "caps" -> Out([s EXCEPT !.caps = [has |-> e.has, inv |-> e.inv, bcu |-> e.bcu, bmu |-> e.bmu]], TRUE, "caps")
      [] OTHER -> Receive(s, [k |-> e.k, dev |-> e.dev, base |-> e.base, w |-> e.w, err |-> e.err, bad |-> e.bad, inv |-> e.inv,
                              ada |-> e.ada, ts |-> t], Cfg)
Do(x, dt) == LET r == Apply(Letter(x), now + dt) IN
    /\ s' = r.s /\ now' = now + dt /\ n' = n + 1 /\ ev' = [e |-> Letter(x), ok |-> r.ok, why |-> r.why]
Next == n < MaxSteps /\ \E x \in Letters : (x \in Small \/ Small = {}) /\ Do(x, 30000)
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------------ *)
IsRead == ev'.e.k \in {"HR", "IR"}
C(d) == CacheOf(s, d)
C2(d) == CacheOf(s', d)
Others(d0) == \A d \in (DOMAIN s.cache \union DOMAIN s'.cache) \ {d0} : C(d) = C2(d)
Block == Keys(ev'.e.k, ev'.e.base, Len(ev'.e.w))
Lo == Key(ev'.e.k, ev'.e.base)
WholeOrNothing == [][IsRead => LET d == ev'.e.dev IN Others(d) /\ IF ev'.ok
                        THEN /\ DOMAIN C2(d) = DOMAIN C(d) \union Block
                             /\ \A x \in DOMAIN C2(d) : C2(d)[x] = IF x \in Block THEN ev'.e.w[x - Lo + 1] ELSE C(d)[x]
                        ELSE C(d) = C2(d)]_vars
ZeroesNeverWin == [][IsRead /\ ev'.ok /\ Len(ev'.e.w) = 60 /\ (\A j \in 1..60 : ev'.e.w[j] = 0)
                       => \A x \in Block : Val(C(ev'.e.dev), x) <= 0]_vars
DevKeys(ss, d) == LET sk == SerialKeys(ClassOf(d, ss.caps)) IN [i \in 1..Len(sk) |-> Val(CacheOf(ss, d), sk[i])]
IdentityKept == [][IsRead => \A d \in DOMAIN s.cache : Len(DevKeys(s, d)) = 5 /\ IsSerial(DevKeys(s, d)) => IsSerial(DevKeys(s', d))]_vars
DamagedInert == [][("bad" \in DOMAIN ev'.e) /\ ev'.e.k # "W" /\ (ev'.e.bad \/ ev'.e.err \/ ev'.e.k = "other") => [s' EXCEPT !.crc = s.crc] = s]_vars
StampedOnAccept == [][\A k \in DOMAIN s'.stamp : (k \notin DOMAIN s.stamp \/ s.stamp[k] # s'.stamp[k])
                        => IsRead /\ ev'.ok /\ k = <<ev'.e.dev, ev'.e.k, ev'.e.base, Len(ev'.e.w)>> /\ s'.stamp[k] = now']_vars
PresentMeansAccepted == \A k \in DOMAIN s.present : s.present[k] => k \in DOMAIN s.stamp /\ k \in DOMAIN s.since /\ s.since[k].t <= s.stamp[k]
\* (a short read's window may be emptied by invalidating the page around it)
PresentMeansHeld == \A k \in DOMAIN s.present : s.present[k] /\ k[4] >= 30 => Keys(k[2], k[3], k[4]) \subseteq DOMAIN CacheOf(s, k[1])
InverterIdentity == [][s'.invser # s.invser => ev'.e.dev \in {17, 49}]_vars
WriteTouchesOne == [][ev'.e.k = "W" => LET d == IF s.caps.has THEN s.caps.inv ELSE ev'.e.dev IN
                        /\ Others(d) /\ s'.stamp = s.stamp /\ s'.present = s.present
                        /\ \A x \in DOMAIN C2(d) : Val(C(d), x) # C2(d)[x] => x = ev'.e.base /\ C2(d)[x] = ev'.e.w[1] /\ x # 0]_vars
=============================================================================