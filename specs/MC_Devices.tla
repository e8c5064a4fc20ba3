----------------------------- MODULE MC_Devices -----------------------------
(***************************************************************************)
(* Every small plant: which packs, modules, stacks and meters are listed,    *)
(* what each has said so far, what a controller manages and which of those   *)
(* are read directly.  Devices speak one at a time, in any order.            *)
(***************************************************************************)
EXTENDS Devices
CONSTANT Kinds
VARIABLES c, heard, xs

Z(model) == [model |-> model, inv |-> 17, packs |-> <<>>, meters |-> <<>>, stacks |-> <<>>, aio |-> <<>>]
Lists(S) == {<<>>} \union {<<a>> : a \in S} \union {<<a, b>> : a, b \in S}
Asc(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Some(S) == {q \in Lists(S) : Asc(q)}
Plants ==
    IF Kinds = "lv" THEN {[Z(m) EXCEPT !.packs = p, !.meters = t] : m \in {"HYBRID", "GATEWAY"}, p \in {<<>>, <<50>>, <<51>>, <<50, 51>>, <<50, 53>>}, t \in {<<>>, <<1>>, <<1, 4>>}} \union {NoCaps}
    ELSE IF Kinds = "hv" THEN {[Z(m) EXCEPT !.stacks = s, !.aio = a, !.meters = t] : m \in {"ALL_IN_ONE", "HYBRID_3PH"},
                                 s \in {<<>>, <<<<0, 2>>>>, <<<<0, 1>>, <<1, 2>>>>, <<<<0, 2>>, <<11, 1>>>>}, a \in {<<>>, <<80>>, <<80, 82>>}, t \in {<<>>, <<8>>}}
    ELSE {[Z("EMS") EXCEPT !.meters = t, !.packs = p] : t \in Some({1, 2}), p \in {<<>>, <<50>>}}
W5(d) == [i \in 1..5 |-> 16640 + 65 + (IF i = 5 THEN (d % 20) ELSE 0)]      \* "AAAA...", the last letter the device's own
Fresh(d, k, rs, ws) == [x \in {<<d, k, rs[i]>> : i \in DOMAIN rs} |-> ws[CHOOSE i \in DOMAIN rs : rs[i] = x[3]]]
Utterances ==
    {Fresh(17, "HR", SerialHR, W5(0)), Fresh(17, "HR", <<19, 21>>, <<101, 449>>), Fresh(17, "HR", SerialHR, <<0, 0, 0, 0, 0>>)}
    \union (IF Kinds = "lv" THEN {Fresh(d, "IR", Run(110, 5), W5(d - 49)) : d \in {50, 51}} \union {Fresh(50, "IR", Run(110, 5), <<0, 0, 0, 0, 0>>), Fresh(51, "HR", SerialHR, W5(9)),
                                  Fresh(1, "IR", <<60>>, <<2300>>), Fresh(1, "IR", <<60>>, <<0>>)}
            ELSE IF Kinds = "hv" THEN {Fresh(d, "IR", Run(114, 5), W5(d - 78)) : d \in 80..82} \union {Fresh(112, "IR", Run(60, 4), <<18256, 48, 1, 2>>), Fresh(112, "IR", Run(138, 5), W5(8)), Fresh(8, "IR", <<60>>, <<2300>>)}
            ELSE {Fresh(17, "IR", Run(2066, 5), W5(1)), Fresh(17, "IR", Run(2071, 5), W5(2)), Fresh(17, "IR", Run(2066, 5), <<0, 0, 0, 0, 0>>), Fresh(50, "IR", Run(110, 5), W5(3))})
DirectPool == {Fresh(0, "HR", <<0>> \o SerialHR, <<8193>> \o W5(n)) : n \in {1, 5}} \union {Fresh(0, "HR", SerialHR, W5(6))}
Init == c \in Plants /\ heard = <<>> /\ xs = <<>>
Hear == \E u \in Utterances : heard' = u @@ heard /\ UNCHANGED <<c, xs>>
AddDirect == Kinds = "ems" /\ Len(xs) < 2 /\ \E x \in DirectPool : xs' = Append(xs, x) /\ UNCHANGED <<c, heard>>
Next == Hear \/ AddDirect
Spec == Init /\ [][Next]_<<c, heard, xs>>

Now == Tree(heard, c, xs, <<>>)
\* exactly the devices of the topology
Complete(t) ==
    c = NoCaps \/
    LET n(type) == Cardinality({i \in 2..Len(t) : t[i].type = type})
        mods == IF c.aio # <<>> THEN Cardinality({i \in DOMAIN c.aio : Known(heard, c.aio[i])}) ELSE LET q == [j \in DOMAIN c.stacks |-> c.stacks[j][2]] IN IF q = <<>> THEN 0 ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] + q[2]
    IN n("battery") = Len(c.packs) /\ n("meter") = Len(c.meters) /\ n("hv_stack") = Len(c.stacks) /\ n("battery_module") = mods
       /\ (c.model # "EMS" => n("inverter") = 0)
\* the plant's serial comes from the inverter alone
SerialOk(t) == t[1].id \in {<<>>, Letters(W5(0))} /\ (t[1].id # <<>> <=> <<17, "HR", 13>> \in DOMAIN heard /\ heard[<<17, "HR", 13>>] # 0)
Ok == LET t == Now IN Complete(t) /\ WellFormed(t) /\ SerialOk(t)
\* what changed changes no row but the device's own (unless it is the root, which names the others; or a controller)
Spoke == {k[1] : k \in {k \in DOMAIN heard' : k \notin DOMAIN heard \/ heard[k] # heard'[k]}}
Step ==
    17 \notin Spoke =>
    LET t == Now
        u == Tree(heard', c', xs', <<>>)
    IN /\ Kinds # "ems" /\ c # NoCaps => Cardinality({u[i] : i \in DOMAIN u} \ {t[i] : i \in DOMAIN t}) <= 1
       /\ u[1].id = t[1].id
Steps == [][Step]_<<c, heard, xs>>
=============================================================================
