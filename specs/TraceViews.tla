------------------------------ MODULE TraceViews ------------------------------
(***************************************************************************)
(* What real plants' accessors showed, checked against Views.                *)
(***************************************************************************)
EXTENDS TraceLib
V == INSTANCE Views
VARIABLES tid, i
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0
Norm(g) == IF g.k = "n" THEN [k |-> "n", s |-> g.s, w |-> g.w] ELSE g
Same(w, g) == CASE w.k = "e" -> (g.k = "e" /\ g.name = w.name) \/ (g.k = "n" /\ g = V!Whole(w.v))
                [] w.k = "oneof" -> g.k = "n" /\ g \in w.v
                [] w.k = "num" -> g.k \in {"n", "big"}
                [] OTHER -> g.k = w.k /\ g = w
SameList(w, g) == Len(w) = Len(g) /\ \A j \in DOMAIN w : w[j].serial = g[j].serial /\ \A f \in {"status", "power", "soc", "temp"} : Same(w[j][f], Norm(g[j][f]))
Agrees(w, g) == IF w.k = "list" THEN (g.k = "list" /\ SameList(w.v, g.v)) \/ (w.v = <<>> /\ g.k = "txt" /\ g.v = <<>>) ELSE g.k # "list" /\ Same(w, g)
Model(w, g) == w.cls = g.cls /\ \A n \in DOMAIN w.vals : n \in DOMAIN g.vals /\ Agrees(w.vals[n], Norm(g.vals[n]))
All(w, g, R(_, _)) == Len(w) = Len(g) /\ \A j \in DOMAIN w : R(w[j], g[j])
Placed(w, g) == w.d = g.d /\ Model(w.m, g.m)
Numbered(w, g) == w.n = g.n /\ Model(w.m, g.m)
Stack(w, g) == w.d = g.d /\ Model(w.bcu, g.bcu) /\ All(w.bmus, g.bmus, Numbered)
Unit(w, g) == w.src = g.src /\ w.serial = g.serial /\ w.blinded = g.blinded /\ w.own = g.own /\ w.summary = g.summary
              /\ (\A n \in DOMAIN w.facts : Agrees(w.facts[n], Norm(g.facts[n]))) /\ All(w.direct, g.direct, Model)
\* the plant's remaining energy: the sum over the packs that tell
Told(packs) == SelectSeq([j \in DOMAIN packs |-> Norm(packs[j].vals["remaining_energy_nominal_wh"])], LAMBDA x : x.k = "n")
RECURSIVE Total(_)
Total(xs) == IF xs = <<>> THEN V!Whole(0) ELSE V!Add(Head(xs), Total(Tail(xs)))
Energy(g) == LET xs == Told(g.packs) IN Norm(g.energy) = IF xs = <<>> THEN V!None ELSE Total(xs)
\* an address that answered with nothing known may be shown as an empty unit or not at all
Hollow(p, g) == p.caps # V!NoCaps /\ p.caps.bcu >= 0 /\ V!Stored(p, p.caps.bcu) /\ V!At(p, p.caps.bcu) = V!Nothing /\ All(<<V!Seen("LvBcu", V!Nothing)>>, g, Model)
Clause(e) ==
    IF e.out # "ok" THEN "M06:raised" ELSE IF e.touched THEN "M06:reading changed the plant"
    ELSE LET w == V!Shown(e.plant)
             g == e.got
         IN CASE ~Model(w.inverter, g.inverter) -> "M06:inverter"
              [] w.count # g.count -> "M06:number of batteries"
              [] ~All(w.packs, g.packs, Model) -> "M06:batteries"
              [] ~All(w.meters, g.meters, Placed) -> "M06:meters"
              [] ~All(w.modules, g.modules, Placed) -> "M06:modules"
              [] ~All(w.stacks, g.stacks, Stack) -> "M06:stacks"
              [] ~All(w.ems, g.ems, Model) -> "M06:controller"
              [] ~All(w.gateway, g.gateway, Model) -> "M06:gateway"
              [] ~All(w.lvbcu, g.lvbcu, Model) /\ ~Hollow(e.plant, g.lvbcu) -> "M06:low-voltage unit"
              [] ~All(w.fleet, g.fleet, Unit) -> "M06:fleet"
              [] w.index # RangeOf(g.index) -> "M06:index"
              [] ~Energy(g) -> "M06:energy"
              [] OTHER -> ""
Brief(e) == IF e.out # "ok" THEN e.out ELSE LET w == V!Shown(e.plant) IN ToString([fleet |-> [j \in DOMAIN w.fleet |-> [w.fleet[j] EXCEPT !.direct = <<>>]], index |-> w.index, count |-> w.count])
Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               bad == Clause(e)
           IN IF bad = "" THEN i' = i + 1 /\ UNCHANGED tid /\ (i' = Len(T.ev) => Accept(tid))
              ELSE Reject(tid, i + 1, <<bad>>, Brief(e)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i>>
=============================================================================
