------------------------------- MODULE Devices -------------------------------
(***************************************************************************)
(* The device tree of a plant: what the plant has stored about each address  *)
(* (v: <<address, kind, register>> -> word) and the detected topology c give *)
(* the rows a user sees.  Text is sequences of character codes.              *)
(***************************************************************************)
EXTENDS Topology, TLC

NoCaps == [model |-> "none"]
Word(v, d, k, r) == IF <<d, k, r>> \in DOMAIN v THEN v[<<d, k, r>>] ELSE -1
Words(v, d, k, rs) == [i \in DOMAIN rs |-> Word(v, d, k, rs[i])]
Run(a, n) == [i \in 1..n |-> a + i - 1]
Has(ws) == \A i \in DOMAIN ws : ws[i] >= 0
Known(v, d) == \E k \in DOMAIN v : k[1] = d

Chars == "_`abcdefghijklmnopqrstuvwxyz"
CodeTable == [c \in {SubSeq(Chars, i, i) : i \in 1..Len(Chars)} |-> 94 + CHOOSE i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c]
Text(s) == [i \in 1..Len(s) |-> CodeTable[SubSeq(s, i, i)]]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(n) == <<48, 120, HexDigit(n \div 16), HexDigit(n % 16)>>

Upper(c) == IF c = 0 THEN <<>> ELSE IF c \in 97..122 \/ c \in (224..254) \ {247} THEN <<c - 32>>
            ELSE IF c = 181 THEN <<924>> ELSE IF c = 223 THEN <<83, 83>> ELSE IF c = 255 THEN <<376>> ELSE <<c>>
RECURSIVE Letters(_)
Letters(ws) == IF ws = <<>> THEN <<>> ELSE Upper(Head(ws) \div 256) \o Upper(Head(ws) % 256) \o Letters(Tail(ws))
Alnum(c) == c \in 48..57 \/ c \in 65..90
GoodSerial(s) == Len(s) = 10 /\ \A i \in DOMAIN s : Alnum(s[i])
Blank(s) == s = <<>> \/ (Len(s) = 10 /\ \A i \in DOMAIN s : s[i] = 32)
Said(ws) == IF Has(ws) THEN Letters(ws) ELSE <<>>
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF s[1] = 32 THEN Strip(Tail(s)) ELSE IF s[Len(s)] = 32 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Digits(_)
Digits(ws) == IF ws = <<>> THEN <<>> ELSE Dec(Head(ws) \div 256) \o Dec(Head(ws) % 256) \o Digits(Tail(ws))
RECURSIVE Raw(_)
Raw(ws) == IF ws = <<>> THEN <<>> ELSE SelectSeq(<<Head(ws) \div 256, Head(ws) % 256>>, LAMBDA c : c # 0) \o Raw(Tail(ws))
PackVersion(ws) == IF Has(ws) THEN Raw(SubSeq(ws, 1, 2)) \o Digits(SubSeq(ws, 3, 4)) ELSE <<>>
Firmware(ws) == IF Has(ws) THEN <<68, 48, 46>> \o Dec(ws[1]) \o <<45, 65, 48, 46>> \o Dec(ws[2]) ELSE <<>>

\* an inverter's firmware lies elsewhere on a three-phase one
InvFirmware(v, d, model) == Firmware(IF model \in ThreePhase THEN Words(v, d, "IR", <<1325, 1327>>) ELSE Words(v, d, "HR", <<19, 21>>))

(* ---- what is known of each device ---- *)
SerialHR == Run(13, 5)
BatterySerial(v, d) == LET s == Said(Words(v, d, "IR", Run(110, 5))) IN IF GoodSerial(s) THEN s ELSE <<>>
ModuleSerial(v, d) == LET s == Said(Words(v, d, "IR", Run(114, 5))) IN IF Blank(s) THEN <<>> ELSE s
BcuVersion(v, d) == PackVersion(Words(v, d, "IR", Run(60, 4)))
BcuValid(v, d) == LET s == BcuVersion(v, d) IN ~Blank(s) /\ \E i \in DOMAIN s : s[i] # 48
BcuSerial(v, d) == IF BcuValid(v, d) THEN Said(Words(v, d, "IR", Run(138, 5))) ELSE <<>>
MeterVolts(v, d) == LET w == Word(v, d, "IR", 60) IN IF w \in 0..5000 THEN w ELSE -1

InvAt(c) == IF c = NoCaps THEN 17 ELSE c.inv
\* the plant's own serial: only from the inverter's addresses
PlantSerial(v, c, envelope) ==
    LET at(d) == Said(Words(v, d, "HR", SerialHR))
        order == IF c # NoCaps /\ c.inv \in {17, 49} THEN <<c.inv, 17>> ELSE <<17>>
        good == {i \in DOMAIN order : GoodSerial(at(order[i]))}
    IN IF good = {} THEN envelope ELSE at(order[CHOOSE i \in good : \A j \in good : i <= j])

RECURSIVE PackRun(_, _)
PackRun(v, d) == IF d > 55 \/ BatterySerial(v, d) = <<>> THEN <<>> ELSE <<d>> \o PackRun(v, d + 1)
PackList(v, c) == IF c = NoCaps THEN PackRun(v, 50) ELSE c.packs

(* ---- the inverters a controller manages, and those read directly ---- *)
Managed(v, c) == LET at(i) == Strip(Said(Words(v, c.inv, "IR", Run(2066 + 5 * (i - 1), 5))))
                     used == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : at(i) # <<>>)
                 IN [j \in DOMAIN used |-> at(used[j])]
\* x: the caches added from other connections, in order; each a function <<kind, register>> -> word
DirectOf(x) == LET ws == [i \in 1..5 |-> Word(x, 0, "HR", 12 + i)] IN IF Word(x, 0, "HR", 0) >= 0 THEN Said(ws) ELSE <<>>
RECURSIVE Directs(_)
Directs(xs) == IF xs = <<>> THEN <<>>
               ELSE LET rest == Directs(SubSeq(xs, 1, Len(xs) - 1))
                        s == DirectOf(xs[Len(xs)])
                    IN IF s = <<>> \/ \E i \in DOMAIN rest : rest[i] = s THEN rest ELSE Append(rest, s)
DirectFw(xs, s) == LET hits == {i \in DOMAIN xs : DirectOf(xs[i]) = s}
                       i == CHOOSE i \in hits : \A j \in hits : j <= i
                   IN InvFirmware(xs[i], 0, LET fw == Word(xs[i], 0, "HR", 21) IN ModelOf(Word(xs[i], 0, "HR", 0), IF fw < 0 THEN 0 ELSE fw))
Fleet(v, c, xs) ==    \* the managed ones, then those only read directly
    LET m == Managed(v, c)
        d == Directs(xs)
        lone == SelectSeq(d, LAMBDA s : \A i \in DOMAIN m : m[i] # s)
    IN [i \in DOMAIN m |-> [serial |-> m[i], src |-> IF \E j \in DOMAIN d : d[j] = m[i] THEN "merged" ELSE "ems_rollup"]]
       \o [i \in DOMAIN lone |-> [serial |-> lone[i], src |-> "direct"]]

(* ---- rows ---- *)
Row(type, id, parent, serial, fw, valid, src, mark) ==
    [type |-> type, id |-> id, top |-> FALSE, parent |-> parent, serial |-> serial, fw |-> fw, valid |-> valid, boss |-> FALSE, src |-> src, mark |-> mark]
Named(serial, me, kind, n) == IF serial # <<>> THEN serial ELSE me \o Text(kind) \o n

Root(v, c, me) ==
    LET type == IF c = NoCaps THEN "inverter" ELSE IF c.model = "GATEWAY" THEN "gateway" ELSE IF c.model \in Ems THEN "ems" ELSE "inverter"
        fw == IF type = "gateway" THEN PackVersion(Words(v, c.inv, "IR", Run(1600, 4)))
              ELSE InvFirmware(v, InvAt(c), c.model)
    IN [Row(type, me, <<>>, me, fw, TRUE, IF type = "inverter" THEN "direct" ELSE "", <<>>) EXCEPT !.top = TRUE, !.boss = TRUE]

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
FleetRows(v, c, xs, me) ==
    LET f == Fleet(v, c, xs)
    IN [i \in DOMAIN f |-> LET seen == f[i].src # "ems_rollup"
                           IN Row("inverter", IF seen THEN f[i].serial ELSE f[i].serial \o Text("_managed"), me, f[i].serial,
                                  IF seen THEN DirectFw(xs, f[i].serial) ELSE <<>>, TRUE, f[i].src, <<>>)]
PackRows(v, c, me) ==
    LET ps == PackList(v, c)
    IN [i \in DOMAIN ps |-> LET s == BatterySerial(v, ps[i])
                                w == Word(v, ps[i], "IR", 98)
                            IN Row("battery", Named(s, me, "_battery_", Dec(i)), me, s, IF w < 0 THEN <<>> ELSE Dec(w), s # <<>>, "", <<>>)]
AioRows(v, c, me) ==
    LET seen == SelectSeq(c.aio, LAMBDA d : Known(v, d))
    IN [i \in DOMAIN seen |-> LET s == ModuleSerial(v, seen[i])
                              IN Row("battery_module", Named(s, me, "_module_", Dec(seen[i])), me, s, <<>>, s # <<>>, "", <<seen[i]>>)]
RECURSIVE StackRows(_, _, _, _, _)
StackRows(v, c, me, j, at) ==
    IF j > Len(c.stacks) THEN <<>>
    ELSE LET d == 112 + c.stacks[j][1]
             n == c.stacks[j][2]
             id == me \o Text("_hvstack_") \o Hex(d)
             mods == [i \in 1..(IF c.aio = <<>> THEN n ELSE 0) |->
                        LET s == ModuleSerial(v, at + i - 1)
                        IN Row("battery_module", Named(s, id, "_bmu_", Dec(i)), id, s, <<>>, s # <<>>, "", <<i - 1>>)]
         IN <<Row("hv_stack", id, me, BcuSerial(v, d), BcuVersion(v, d), BcuValid(v, d), "", <<d, n>>)>> \o mods \o StackRows(v, c, me, j + 1, at + n)
MeterRows(v, c, me) ==
    [i \in DOMAIN c.meters |-> Row("meter", me \o Text("_meter_") \o Dec(c.meters[i]), me, <<>>, <<>>, MeterVolts(v, c.meters[i]) > 0, "", <<MeterVolts(v, c.meters[i])>>)]

Rank == [battery |-> 1, battery_module |-> 2, hv_stack |-> 3, inverter |-> 4, meter |-> 5]
RECURSIVE Below(_, _)
Below(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Below(Tail(a), Tail(b))
Before(x, y) == Rank[x.type] < Rank[y.type] \/ (x.type = y.type /\ Below(x.id, y.id))
Sorted(q) ==
    LET place == [i \in DOMAIN q |-> 1 + Cardinality({j \in DOMAIN q : Before(q[j], q[i]) \/ (j < i /\ ~Before(q[i], q[j]))})]
    IN [n \in DOMAIN q |-> q[CHOOSE i \in DOMAIN q : place[i] = n]]

Children(v, c, xs, me) ==
    (IF c # NoCaps /\ c.model \in Ems THEN FleetRows(v, c, xs, me) ELSE <<>>)
    \o PackRows(v, c, me)
    \o (IF c = NoCaps THEN <<>> ELSE AioRows(v, c, me) \o StackRows(v, c, me, 1, 80) \o MeterRows(v, c, me))
Tree(v, c, xs, envelope) == LET me == PlantSerial(v, c, envelope) IN <<Root(v, c, me)>> \o Sorted(Children(v, c, xs, me))

(* ---- the other views of the same devices ---- *)
Views(v, c, xs) ==
    [packs |-> Len(PackList(v, c)), meters |-> IF c = NoCaps THEN <<>> ELSE c.meters,
     stacks |-> IF c = NoCaps THEN <<>> ELSE [j \in DOMAIN c.stacks |-> <<112 + c.stacks[j][1], c.stacks[j][2]>>],
     aio |-> IF c = NoCaps THEN <<>> ELSE SelectSeq(c.aio, LAMBDA d : Known(v, d)),
     ems |-> c # NoCaps /\ c.model \in Ems, gateway |-> c # NoCaps /\ c.model = "GATEWAY",
     fleet |-> IF c # NoCaps /\ c.model \in Ems THEN Fleet(v, c, xs) ELSE <<[serial |-> Said(Words(v, InvAt(c), "HR", SerialHR)), src |-> "direct"]>>]

(* ---- what must hold of every tree (distinct serials) ---- *)
WellFormed(t) ==
    /\ \A i \in DOMAIN t : t[i].top <=> i = 1
    /\ \A i \in DOMAIN t : t[i].boss <=> i = 1
    /\ \A i \in 2..Len(t) : \E j \in DOMAIN t : j # i /\ t[j].id = t[i].parent
    /\ \A i, j \in DOMAIN t : i # j => t[i].id # t[j].id
    /\ \A i \in 2..(Len(t) - 1) : Before(t[i], t[i + 1])
=============================================================================
