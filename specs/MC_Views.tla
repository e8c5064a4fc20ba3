------------------------------- MODULE MC_Views -------------------------------
(***************************************************************************)
(* Views checked on its own, over small plants: every kind of topology, with *)
(* addresses that answered with one thing or another or not at all, and       *)
(* inverters read directly that match the controller's report or do not.       *)
(***************************************************************************)
EXTENDS Views
CONSTANT Deep
VARIABLES p, d          \* a plant, and an address whose registers are going to change

Caps(m, inv) == [model |-> m, inv |-> inv, packs |-> <<>>, meters |-> <<>>, stacks |-> <<>>, aio |-> <<>>, bcu |-> -1]
Topologies == {NoCaps, [Caps("HYBRID", 17) EXCEPT !.packs = <<50, 52>>, !.meters = <<3>>, !.bcu = 49], [Caps("ALL_IN_ONE", 17) EXCEPT !.aio = <<80, 81, 82>>],
               [Caps("HYBRID_3PH", 49) EXCEPT !.stacks = <<<<0, 2>>, <<1, 1>>>>], Caps("GATEWAY", 17), Caps("EMS", 17)}
Addresses == {3, 17, 49, 50, 51, 52, 80, 81, 82, 112, 113}

\* serials, one letter each: A, B, C
S(n) == <<16705 + n * 257, 12849, 13110, 18225, 12851>>
Letters(n) == LET w == S(n) IN <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256, w[3] \div 256, w[3] % 256, w[4] \div 256, w[4] % 256, w[5] \div 256, w[5] % 256>>
Regs(t, from, ws) == [n \in {t \o ToString(from + j - 1) : j \in DOMAIN ws} |-> ws[CHOOSE j \in DOMAIN ws : t \o ToString(from + j - 1) = n]]
Unit1(n, soc) == Regs("HR_", 13, S(n)) @@ [HR_0 |-> 8193, HR_21 |-> 449] @@ (IF soc < 0 THEN Nothing ELSE [IR_59 |-> soc])
Odd(n) == Regs("HR_", 13, S(n)) @@ [HR_0 |-> 4097, HR_21 |-> 449]
Report(a, b) == (IF a < 0 THEN Nothing ELSE Regs("IR_", 2066, S(a)) @@ [IR_2060 |-> 500, IR_2044 |-> 1, IR_2062 |-> 40]) @@ (IF b < 0 THEN Nothing ELSE Regs("IR_", 2071, S(b)) @@ [IR_2045 |-> 1])
Contents(t, a) ==
    CASE a = t.inv /\ t.model = "EMS" -> {Nothing, Report(0, 1), Report(1, 1), Report(-1, 2)}
      [] a \in 50..55 -> {Nothing, Regs("IR_", 110, S(a - 50)) @@ [IR_100 |-> 50], [IR_100 |-> 60]}
      [] OTHER -> {Unit1(0, 50) @@ [IR_60 |-> 33]}
Fill(t) == LET here == IF t = NoCaps THEN {50, 51, 52} ELSE {t.inv} \cup {t.packs[j] : j \in DOMAIN t.packs} IN
    {f \in [here -> UNION {Contents(t @@ [inv |-> 17], a) : a \in here}] : \A a \in here : f[a] \in Contents(t @@ [inv |-> 17], a)}
Other(a) == Unit1(2, 70) @@ Regs("IR_", 110, S(2)) @@ Report(2, 0) @@ [IR_60 |-> 77, IR_100 |-> 88]
Plant(t, f, ds) == LET as == SetToSeq(DOMAIN f) IN [caps |-> t, caches |-> [j \in DOMAIN as |-> [d |-> as[j], c |-> f[as[j]]]], directs |-> ds]
One == {Unit1(0, 10), Unit1(0, -1), Unit1(1, 90), Unit1(2, 20), Odd(0), Nothing}
Directs == {<<>>} \cup {<<x>> : x \in One} \cup {<<x, y>> : x, y \in One} \cup (IF Deep THEN {<<x, y, z>> : x, y, z \in One} ELSE {})
Init == \E t \in Topologies : \E f \in Fill(t) : \E ds \in IF t = Caps("EMS", 17) THEN Directs ELSE {<<>>} :
          p = Plant(t, f, ds) /\ d \in (IF t = Caps("EMS", 17) /\ ds # <<>> THEN {17} ELSE Addresses)
Next == UNCHANGED <<p, d>>

Changed == [p EXCEPT !.caches = SelectSeq(@, LAMBDA x : x.d # d) \o <<[d |-> d, c |-> Other(d)]>>]
Ok ==
    LET v == Shown(p)
        w == Shown(Changed)
        own == IF p.caps = NoCaps THEN 17 ELSE p.caps.inv
        us == Usable(p)
        direct == {SerialOf(InverterOf(DirectModel(us[j]), us[j])) : j \in DOMAIN us}
        reported == IF IsEms(p) THEN {v.fleet[j].serial : j \in {j \in DOMAIN v.fleet : v.fleet[j].src # "direct"}} ELSE {}
        listed(s) == {j \in DOMAIN v.fleet : v.fleet[j].serial = s}
    IN \* a change at one address shows only where that address is read
       /\ d # own => w.inverter = v.inverter /\ w.ems = v.ems /\ w.gateway = v.gateway /\ [j \in DOMAIN w.fleet |-> [w.fleet[j] EXCEPT !.own = 0]] = [j \in DOMAIN v.fleet |-> [v.fleet[j] EXCEPT !.own = 0]]
       /\ d \notin 50..55 => w.packs = v.packs
       /\ p.caps # NoCaps => Len(w.packs) = Len(p.caps.packs) /\ \A j \in DOMAIN p.caps.packs : (w.packs[j] = v.packs[j]) \/ p.caps.packs[j] = d
       /\ \A j \in DOMAIN v.meters : w.meters[j] = v.meters[j] \/ v.meters[j].d = d
       /\ {v.modules[j].d : j \in DOMAIN v.modules} = {a \in (IF p.caps = NoCaps THEN {} ELSE {p.caps.aio[j] : j \in DOMAIN p.caps.aio}) : Stored(p, a)}
       /\ \A j \in DOMAIN v.stacks : w.stacks[j].bcu = v.stacks[j].bcu \/ v.stacks[j].d = d
       \* no pack is read at two places, nor left out: stack modules follow on each other
       /\ LET seen == [j \in DOMAIN v.stacks |-> {n \in DOMAIN v.stacks[j].bmus : w.stacks[j].bmus[n] # v.stacks[j].bmus[n]}]
          IN p.caps # NoCaps /\ p.caps.stacks # <<>> /\ d \in 80..82 /\ d \notin DOMAIN p.caches => Cardinality({<<j, n>> \in (1..2) \X (1..2) : j \in DOMAIN seen /\ n \in seen[j]}) = 1
       \* the fleet: everyone reported, and everyone read, once; a reading goes before a report
       /\ \A s \in direct : Cardinality({j \in listed(s) : v.fleet[j].src = "direct"}) <= 1 /\ listed(s) # {}
       /\ IsEms(p) => /\ \A j \in DOMAIN v.fleet : (v.fleet[j].src = "ems_rollup" <=> v.fleet[j].serial \notin direct) /\ (v.fleet[j].src = "direct" => v.fleet[j].serial \notin reported)
                      /\ \A j \in DOMAIN v.fleet : v.fleet[j].direct # <<>> => \A n \in DOMAIN v.fleet[j].facts : LET x == Fact(v.fleet[j].direct[1], n) IN x.k # "none" => v.fleet[j].facts[n] = x
                      /\ \A j \in DOMAIN v.fleet : v.fleet[j].summary <=> v.fleet[j].serial \in reported
       /\ ~IsEms(p) => Len(v.fleet) = 1 /\ v.fleet[1].src = "direct" /\ v.fleet[1].own = <<v.count, Len(v.stacks), Len(v.modules)>>
       /\ {x[1] : x \in v.index} = {v.fleet[j].serial : j \in DOMAIN v.fleet} \ {<<>>} /\ Cardinality({x[1] : x \in v.index}) = Cardinality(v.index)
       \* what a later reading of the same serial says replaces what an earlier one said
       /\ \A a, b \in DOMAIN us : a < b /\ SerialOf(InverterOf(DirectModel(us[a]), us[a])) = SerialOf(InverterOf(DirectModel(us[b]), us[b])) =>
            \A j \in listed(SerialOf(InverterOf(DirectModel(us[b]), us[b]))) : (\E z \in (b + 1)..Len(us) : SerialOf(InverterOf(DirectModel(us[z]), us[z])) = v.fleet[j].serial) \/ v.fleet[j].direct[1] = InverterOf(DirectModel(us[b]), us[b])
=============================================================================
