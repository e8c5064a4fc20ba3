-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* What a plant's accessors show: which device each of them reads, from      *)
(* which address, and how an inverter seen from two sides (read directly and  *)
(* reported by a controller) is put together.                                 *)
(*                                                                           *)
(* p.caps: the topology ([model |-> "none"] if there is none)                  *)
(* p.caches: <<[d |-> address, c |-> registers]>>, what is stored              *)
(* p.directs: <<registers>>, caches added from other connections, in order      *)
(***************************************************************************)
EXTENDS Decode

NoCaps == [model |-> "none"]
Nothing == [x \in {} |-> 0]
At(p, d) == LET j == {j \in DOMAIN p.caches : p.caches[j].d = d} IN IF j = {} THEN Nothing ELSE p.caches[CHOOSE x \in j : TRUE].c
Stored(p, d) == \E j \in DOMAIN p.caches : p.caches[j].d = d
Seen(cls, c) == [cls |-> cls, vals |-> View(cls, c)]
InverterOf(model, c) == Seen(IF model \in T!ThreePhase THEN "ThreePhaseInverter" ELSE "SinglePhaseInverter", c)
Inverter(p) == InverterOf(p.caps.model, At(p, IF p.caps = NoCaps THEN 17 ELSE p.caps.inv))

RECURSIVE ValidRun(_, _)
ValidRun(p, d) == IF d > 55 \/ ~View("Battery", At(p, d)).is_valid.v THEN <<>> ELSE <<d>> \o ValidRun(p, d + 1)
PackAt(p) == IF p.caps = NoCaps THEN ValidRun(p, 50) ELSE p.caps.packs
Packs(p) == [j \in DOMAIN PackAt(p) |-> Seen("Battery", At(p, PackAt(p)[j]))]
Meters(p) == IF p.caps = NoCaps THEN <<>> ELSE [j \in DOMAIN p.caps.meters |-> [d |-> p.caps.meters[j], m |-> Seen("Meter", At(p, p.caps.meters[j]))]]
Modules(p) == IF p.caps = NoCaps THEN <<>> ELSE LET here == SelectSeq(p.caps.aio, LAMBDA d : Stored(p, d)) IN [j \in DOMAIN here |-> [d |-> here[j], m |-> Seen("AioBatteryModule", At(p, here[j]))]]
\* stack by stack, the modules of all stacks at consecutive addresses
RECURSIVE StacksFrom(_, _, _)
StacksFrom(p, j, at) ==
    IF j > Len(p.caps.stacks) THEN <<>>
    ELSE LET st == p.caps.stacks[j]
         IN <<[d |-> 112 + st[1], bcu |-> Seen("Bcu", At(p, 112 + st[1])), bmus |-> [n \in 1..st[2] |-> [n |-> n - 1, m |-> Seen("Bmu", At(p, at + n - 1))]]]>> \o StacksFrom(p, j + 1, at + st[2])
Stacks(p) == IF p.caps = NoCaps THEN <<>> ELSE StacksFrom(p, 1, 80)
IsEms(p) == p.caps # NoCaps /\ p.caps.model \in T!Ems
EmsOf(p) == IF IsEms(p) THEN <<Seen("Ems", At(p, p.caps.inv))>> ELSE <<>>
GatewayOf(p) == IF p.caps # NoCaps /\ p.caps.model = "GATEWAY" THEN <<Seen("GatewayV1", At(p, p.caps.inv))>> ELSE <<>>
LowVoltageBcu(p) == IF p.caps = NoCaps \/ p.caps.bcu < 0 \/ At(p, p.caps.bcu) = Nothing THEN <<>> ELSE <<Seen("LvBcu", At(p, p.caps.bcu))>>

(* ---- the fleet --------------------------------------------------------------*)
SerialOf(inv) == LET s == inv.vals["serial_number"] IN IF s.k = "none" THEN <<>> ELSE s.v
DirectModel(c) == T!ModelOf(c["HR_0"], IF Has(c, "HR_21") THEN c["HR_21"] ELSE 0)
\* those read directly, by serial: the last reading of one counts, in the order they were first seen
Usable(p) == SelectSeq(p.directs, LAMBDA c : Has(c, "HR_0") /\ DirectModel(c) # "unknown" /\ SerialOf(InverterOf(DirectModel(c), c)) # <<>>)
RECURSIVE BySerial(_, _)
BySerial(us, found) ==
    IF us = <<>> THEN found
    ELSE LET inv == InverterOf(DirectModel(Head(us)), Head(us))
             same == {j \in DOMAIN found : SerialOf(found[j]) = SerialOf(inv)}
         IN BySerial(Tail(us), IF same = {} THEN Append(found, inv) ELSE [j \in DOMAIN found |-> IF j \in same THEN inv ELSE found[j]])
Facts == <<"status", "p_inverter_out", "battery_soc", "t_inverter_heatsink">>
Fact(inv, n) == IF n \in DOMAIN inv.vals THEN inv.vals[n] ELSE None
Summary(m) == [status |-> m.status, p_inverter_out |-> m.power, battery_soc |-> m.soc, t_inverter_heatsink |-> m.temp]
\* what is read directly goes first; the controller's report fills the gaps
Entry(src, serial, inv, sum, own) ==
    [src |-> src, serial |-> serial, blinded |-> inv = <<>>, own |-> own, direct |-> inv, summary |-> sum # <<>>,
     facts |-> [n \in {Facts[j] : j \in DOMAIN Facts} |->
        IF inv # <<>> /\ Fact(inv[1], n).k # "none" THEN Fact(inv[1], n) ELSE IF sum # <<>> THEN Summary(sum[1])[n] ELSE None]]
Fleet(p) ==
    IF ~IsEms(p) THEN LET inv == Inverter(p) IN <<Entry("direct", SerialOf(inv), <<inv>>, <<>>, <<Len(Packs(p)), Len(Stacks(p)), Len(Modules(p))>>)>>
    ELSE LET ms == EmsOf(p)[1].vals["managed_inverters"].v
             ds == BySerial(Usable(p), <<>>)
             lone == SelectSeq(ds, LAMBDA d : \A j \in DOMAIN ms : ms[j].serial # SerialOf(d))
             own == <<0, 0, 0>>
         IN [j \in DOMAIN ms |-> LET hit == SelectSeq(ds, LAMBDA d : SerialOf(d) = ms[j].serial)
                                 IN IF hit = <<>> THEN Entry("ems_rollup", ms[j].serial, <<>>, <<ms[j]>>, own) ELSE Entry("merged", ms[j].serial, <<hit[1]>>, <<ms[j]>>, own)]
            \o [j \in DOMAIN lone |-> Entry("direct", SerialOf(lone[j]), <<lone[j]>>, <<>>, own)]
\* by serial: later ones of the same serial win
Index(f) == LET named == {j \in DOMAIN f : f[j].serial # <<>>} IN {<<f[j].serial, j>> : j \in {j \in named : \A i \in named : f[i].serial = f[j].serial => i <= j}}

Shown(p) == LET f == Fleet(p) IN
    [inverter |-> Inverter(p), packs |-> Packs(p), count |-> Len(PackAt(p)), meters |-> Meters(p), modules |-> Modules(p), stacks |-> Stacks(p),
     ems |-> EmsOf(p), gateway |-> GatewayOf(p), lvbcu |-> LowVoltageBcu(p), fleet |-> f, index |-> Index(f)]
=============================================================================
