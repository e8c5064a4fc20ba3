----------------------------- MODULE MC_Commands -----------------------------
(***************************************************************************)
(* Every command with every representative argument, applied to a plant of    *)
(* every layout; then a second one.  What a command may do to the settings.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth
C == INSTANCE Commands
X == INSTANCE Writes
Wi == INSTANCE Wire

Nums == {[k |-> "num", m |-> m] : m \in {-1000, 0, 300, 1000, 2000, 3000, 4000, 4500, 10000, 11000, 50000, 50050, 100000, 100500, 101000, 230500, 500100, 655350, 655360, 70000000}}
Odd == {[k |-> "bool", b |-> TRUE], [k |-> "other"], [k |-> "none"]}
Times == {[k |-> "time", v |-> v] : v \in {0, 1, 730, 2359}} \union {[k |-> "none"]}
SlotsA == {[k |-> "slot", s |-> 0, e |-> 0], [k |-> "slot", s |-> 2359, e |-> 1], [k |-> "none"]}
Bools == {[k |-> "bool", b |-> x] : x \in BOOLEAN}
Idx == {[k |-> "num", m |-> 1000 * j] : j \in {0, 1, 2, 3, 4, 10, 11}} \union Odd
Dates == {[k |-> "date", y |-> y, mo |-> 2, d |-> 29, h |-> 23, mi |-> 59, se |-> 58] : y \in {1999, 2000, 2096}}

Args(name) ==
    LET nm == IF name \in DOMAIN C!ThreePhaseName THEN C!ThreePhaseName[name] ELSE IF name \in DOMAIN C!EmsName THEN C!EmsName[name] ELSE name
    IN CASE nm \in DOMAIN C!Switches("single") \union DOMAIN C!SwitchesInstaller -> {<<b>> : b \in Bools}
         [] nm \in DOMAIN C!Fixed("single") \union DOMAIN C!Destructive -> {<<>>}
         [] nm = "set_system_date_time" -> {<<d>> : d \in Dates}
         [] nm = "set_mode_storage" -> {<<>>} \union {<<s>> : s \in SlotsA} \union (SlotsA \X SlotsA) \union (SlotsA \X SlotsA \X Bools)
         [] nm \in {"set_pause_slot_start", "set_pause_slot_end"} -> {<<t>> : t \in Times}
         [] nm = "set_pause_slot" -> {<<s>> : s \in SlotsA}
         [] nm \in {"reset_charge_slot", "reset_discharge_slot"} -> {<<j>> : j \in Idx}
         [] nm \in {"set_charge_slot", "set_discharge_slot", "set_export_slot", "set_smart_load_slot"} -> Idx \X SlotsA
         [] nm \in C!SlotNames -> Idx \X Times
         [] nm \in {"set_ems_charge_target_soc", "set_ems_discharge_target_soc", "set_ems_export_target_soc"} -> Idx \X (Nums \union Odd)
         [] nm \in DOMAIN C!OldSlots -> IF nm \in {"set_charge_slot_1", "set_charge_slot_2", "set_discharge_slot_1", "set_discharge_slot_2"} THEN {<<s>> : s \in SlotsA} ELSE {<<>>}
         [] OTHER -> {<<a>> : a \in Nums \union Odd}
Layouts == {"single", "ext", "three", "ems"}
Model(layout) == CASE layout = "single" -> "AC" [] layout = "ext" -> "ALL_IN_ONE" [] layout = "three" -> "HYBRID_3PH" [] OTHER -> "EMS"

VARIABLES layout, bank, last, n
vars == <<layout, bank, last, n>>
None == [name |-> "", a |-> <<>>, confirm |-> FALSE, r |-> C!Refuse, before |-> <<>>]
Read(b, r) == IF r \in DOMAIN b THEN b[r] ELSE 7
RECURSIVE Apply(_, _)
Apply(b, w) == IF w = <<>> THEN b ELSE Apply((w[1][1] :> w[1][2]) @@ b, Tail(w))
Init == layout \in Layouts /\ bank = <<>> /\ last = None /\ n = 0
Step(name, a, confirm) ==
    LET r == C!Result(name, layout, a, confirm)
    IN /\ bank' = Apply(bank, r.w) /\ n' = n + 1 /\ UNCHANGED layout
       /\ last' = [name |-> name, a |-> a, confirm |-> confirm, r |-> r, before |-> bank]
Next == n < Depth /\ \E name \in C!Names : \E a \in Args(name), confirm \in BOOLEAN : Step(name, a, confirm)
Spec == Init /\ [][Next]_vars

RefusedWritesNothing == ~last.r.ok => last.r.w = <<>> /\ bank = last.before
Sane == \A j \in DOMAIN last.r.w : last.r.w[j][2] \in 0..65535
OncePerRegister == Cardinality({last.r.w[j][1] : j \in DOMAIN last.r.w}) = Len(last.r.w)
RightTier == \A j \in DOMAIN last.r.w : last.r.w[j][1] \in (IF C!Installer(last.name) THEN Wi!Installer ELSE Wi!WriteSafe)
ConfirmedOnly == last.name # "" /\ C!NeedsConfirm(last.name) /\ last.r.ok => last.confirm
NeedsNumbers == (last.name \notin DOMAIN C!Switches("single") \union DOMAIN C!SwitchesInstaller \union {"set_mode_storage"}
                 /\ \E j \in DOMAIN last.a : last.a[j].k = "bool") => ~last.r.ok
Others == \A r \in DOMAIN bank : (\E j \in DOMAIN last.r.w : last.r.w[j][1] = r) \/ Read(bank, r) = Read(last.before, r)
\* a slot command touches one slot only
OneSlot == last.name \in C!SlotNames => Len(last.r.w) <= 2 /\ (Len(last.r.w) = 2 => last.r.w[2][1] = last.r.w[1][1] + 1)
\* the slots of a layout are apart from each other and from everything else
SlotsApart == n = 0 => \A l \in Layouts :
    LET all == C!Slots(l, "charge") \o C!Slots(l, "discharge") \o C!Export \o C!Smart \o <<C!P(319)>>
    IN \A x, y \in DOMAIN all : x # y => {all[x][1], all[x][2]} \intersect {all[y][1], all[y][2]} = {}
SlotsPermitted == n = 0 => \A l \in Layouts : \A x \in {"charge", "discharge"} : \A k \in DOMAIN C!Slots(l, x) : {C!Slots(l, x)[k][1], C!Slots(l, x)[k][2]} \subseteq X!ModelSafe(Model(l))
=============================================================================
