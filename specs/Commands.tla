------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* What every control command writes.  A command is a name, the layout of    *)
(* the plant it is meant for ("single", "ext", "three", "ems") and its        *)
(* arguments:                                                                 *)
(*   [k|->"num", m|-> thousandths]  [k|->"bool", b]  [k|->"none"]            *)
(*   [k|->"time", v|-> HHMM]  [k|->"slot", s, e]  [k|->"date", y,mo,d,h,mi,se] *)
(*   [k|->"other"]  anything that is none of these (text, NaN, lists ...)     *)
(* A reply is either a refusal or a sequence of writes <<register, value>>;   *)
(* a command belongs to a tier: everyday or installer.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Refuse == [ok |-> FALSE, w |-> <<>>]
Do(w) == [ok |-> TRUE, w |-> w]
Then(a, b) == IF a.ok /\ b.ok THEN Do(a.w \o b.w) ELSE Refuse
If(c, r) == IF c THEN r ELSE Refuse

IsInt(a) == a.k = "num" /\ a.m % 1000 = 0
Whole(a) == a.m \div 1000
InRange(a, lo, hi) == IsInt(a) /\ Whole(a) \in lo..hi
Bit(a) == IF a.b THEN 1 ELSE 0
Number(reg, a, lo, hi) == If(InRange(a, lo, hi), Do(<<<<reg, IF IsInt(a) THEN Whole(a) ELSE 0>>>>))
Switch(reg, a) == Do(<<<<reg, Bit(a)>>>>)
\* a quantity kept in units of 1/scale: refused unless it is a whole number of them
Fits(a) == a.k = "num" /\ a.m \in 0..1000000
Units(a, scale) == IF Fits(a) THEN (a.m * scale) \div 1000 ELSE 0
Scaled(reg, a, scale, lo, hi) == If(Fits(a) /\ (a.m * scale) % 1000 = 0 /\ Units(a, scale) \in lo..hi, Do(<<<<reg, Units(a, scale)>>>>))

(* ---- slots ---- *)
P(s) == <<s, s + 1>>
Later(base) == [k \in 1..8 |-> P(base + 3 * (k - 1))]
Slots(layout, what) ==
    CASE layout = "single" -> IF what = "charge" THEN <<P(94), P(31)>> ELSE <<P(56), P(44)>>
      [] layout = "ext" -> IF what = "charge" THEN <<P(94), P(31)>> \o Later(246) ELSE <<P(56), P(44)>> \o Later(276)
      [] layout = "three" -> IF what = "charge" THEN <<P(1113), P(1115)>> \o Later(246) ELSE <<P(1118), P(1120)>> \o Later(276)
      [] layout = "ems" -> IF what = "charge" THEN <<P(2053), P(2056), P(2059)>> ELSE <<P(2044), P(2047), P(2050)>>
Export == <<P(2062), P(2065), P(2068)>>
Smart == [k \in 1..10 |-> P(554 + 2 * (k - 1))]
TimeOf(a) == IF a.k = "time" THEN a.v ELSE 0
Endpoint(tab, idx, which, t) ==
    If(IsInt(idx) /\ Whole(idx) \in DOMAIN tab /\ t.k \in {"time", "none"},
       Do(<<<<IF IsInt(idx) /\ Whole(idx) \in DOMAIN tab THEN tab[Whole(idx)][which] ELSE 0, TimeOf(t)>>>>))
Both(tab, idx, slot) ==
    Then(Endpoint(tab, idx, 1, IF slot.k = "slot" THEN [k |-> "time", v |-> slot.s] ELSE slot),
         Endpoint(tab, idx, 2, IF slot.k = "slot" THEN [k |-> "time", v |-> slot.e] ELSE slot))
N(i) == [k |-> "num", m |-> 1000 * i]
Cleared == [k |-> "none"]

(* ---- registers that differ on three-phase plants ---- *)
EnableCharge(layout) == IF layout = "three" THEN 1112 ELSE 96
TargetSoc(layout) == IF layout = "three" THEN 1111 ELSE 116
Reserve(layout) == IF layout = "three" THEN 1109 ELSE 110

ChargeTarget(layout, a) ==
    If(InRange(a, 4, 100),
       Do(<<<<EnableCharge(layout), 1>>, <<20, IF IsInt(a) /\ Whole(a) < 100 THEN 1 ELSE 0>>, <<TargetSoc(layout), IF IsInt(a) THEN Whole(a) ELSE 0>>>>))
Storage(layout, one, two, export) ==
    Then(Do(<<<<27, IF export.b THEN 0 ELSE 1>>, <<59, 1>>>>),
         Then(Both(Slots(layout, "discharge"), N(1), one), Both(Slots(layout, "discharge"), N(2), two)))
DateTime(d) ==
    If(d.k = "date" /\ d.y >= 2000, Do(<<<<35, d.y - 2000>>, <<36, d.mo>>, <<37, d.d>>, <<38, d.h>>, <<39, d.mi>>, <<40, d.se>>>>))
Target(base, idx, a) == If(InRange(idx, 1, 3) /\ InRange(a, 0, 100), Do(<<<<base + 3 * ((IF IsInt(idx) THEN Whole(idx) ELSE 1) - 1), IF IsInt(a) THEN Whole(a) ELSE 0>>>>))

(* ---- grid protection: all need an explicit confirmation ---- *)
Volts(reg, a) == Scaled(reg, a, 10, 0, 5000)
Hertz(reg, a) == Scaled(reg, a, 100, 4000, 7000)
Seconds(reg, a) == Scaled(reg, a, 100, 0, 65535)
V == 1  F == 2  S == 3
GridTab == [set_v_ac_low_limit_trip |-> <<63, V>>, set_v_ac_high_limit_trip |-> <<64, V>>, set_f_ac_low_limit_trip |-> <<65, F>>,
    set_f_ac_high_limit_trip |-> <<66, F>>, set_t_ac_low_voltage_trip |-> <<67, S>>, set_t_ac_high_voltage_trip |-> <<68, S>>,
    set_t_ac_low_freq_trip |-> <<69, S>>, set_t_ac_high_freq_trip |-> <<70, S>>, set_v_ac_low_limit_reconnect |-> <<71, V>>,
    set_v_ac_high_limit_reconnect |-> <<72, V>>, set_f_ac_low_limit_reconnect |-> <<73, F>>, set_f_ac_high_limit_reconnect |-> <<74, F>>,
    set_t_ac_low_voltage_reconnect |-> <<75, S>>, set_t_ac_high_voltage_reconnect |-> <<76, S>>, set_t_ac_low_freq_reconnect |-> <<77, S>>,
    set_t_ac_high_freq_reconnect |-> <<78, S>>, set_v_ac_low_limit_grid |-> <<79, V>>, set_v_ac_high_limit_grid |-> <<80, V>>,
    set_f_ac_low_limit_grid |-> <<81, F>>, set_f_ac_high_limit_grid |-> <<82, F>>, set_v_ac_10min_protect |-> <<83, V>>]
Grid(name, a) == LET g == GridTab[name] IN CASE g[2] = V -> Volts(g[1], a) [] g[2] = F -> Hertz(g[1], a) [] OTHER -> Seconds(g[1], a)
Destructive == [reset_energy_totals |-> 162, three_phase_factory_reset |-> 1016, enable_black_start |-> 5003, restore_factory_defaults |-> 5004]
NeedsConfirm(name) == name \in DOMAIN GridTab \union DOMAIN Destructive

(* ---- plain settings: register, least, greatest ---- *)
Plain(layout) == [set_charge_target_soc |-> <<TargetSoc(layout), 4, 100>>, set_battery_soc_reserve |-> <<Reserve(layout), 4, 100>>,
    set_shallow_charge |-> <<Reserve(layout), 4, 100>>, set_battery_reserve_soc |-> <<1078, 4, 100>>, set_battery_charge_limit |-> <<111, 0, 100>>,
    set_battery_discharge_limit |-> <<112, 0, 100>>, set_battery_power_reserve |-> <<114, 4, 100>>, set_active_power_rate |-> <<50, 0, 100>>,
    set_battery_charge_limit_ac |-> <<313, 1, 100>>, set_battery_discharge_limit_ac |-> <<314, 1, 100>>, set_export_priority |-> <<311, 0, 2>>,
    set_battery_pause_mode |-> <<318, 0, 3>>, set_ems_export_power_limit |-> <<2071, 0, 65535>>]
PlainInstaller == [set_battery_nominal_power |-> <<308, 0, 65535>>, set_battery_nominal_current |-> <<309, 0, 65535>>,
    set_battery_max_charge_pct |-> <<310, 20, 100>>, set_ev_charger_soc_limit |-> <<336, 0, 100>>, set_generator_start_soc |-> <<344, 0, 100>>,
    set_generator_stop_soc |-> <<345, 0, 100>>, set_smart_load_control_soc |-> <<541, 50, 100>>, set_general_load_control_soc |-> <<543, 50, 100>>,
    set_generator_control_soc |-> <<544, 10, 90>>]
Switches(layout) == [set_enable_charge |-> EnableCharge(layout), set_enable_discharge |-> 59, set_enable_rtc |-> 166, set_enable_eps |-> 317,
    set_ac_charge |-> 1112, set_force_charge |-> 1123, set_force_discharge |-> 1122, set_ems_plant |-> 2040]
SwitchesInstaller == [set_anti_islanding_detection |-> 115, set_grid_import_limit_enabled |-> 102, set_enable_plant_mode |-> 300,
    set_enable_micro_grid |-> 332, set_enable_ev_charger |-> 333, set_enable_generator |-> 343, set_enable_smart_load |-> 540,
    set_enable_export_limit_3ph |-> 1103, set_enable_import_limit_3ph |-> 1131, set_peak_shaving_export_limit_enabled |-> 20000,
    set_peak_shaving_enabled |-> 20002]
Fixed(layout) == [disable_charge_target |-> <<<<20, 0>>, <<TargetSoc(layout), 100>>>>, set_inverter_reboot |-> <<<<163, 100>>>>,
    set_discharge_mode_max_power |-> <<<<27, 0>>>>, set_discharge_mode_to_match_demand |-> <<<<27, 1>>>>,
    set_mode_dynamic |-> <<<<27, 1>>, <<Reserve(layout), 4>>, <<59, 0>>>>,
    enable_charge |-> <<<<96, 1>>>>, disable_charge |-> <<<<96, 0>>>>, enable_discharge |-> <<<<59, 1>>>>, disable_discharge |-> <<<<59, 0>>>>]
\* the module offers the three-phase variants under names of their own
ThreePhaseName == [disable_charge_target_3ph |-> "disable_charge_target", set_battery_soc_reserve_3ph |-> "set_battery_soc_reserve",
    set_charge_target_enabled_3ph |-> "set_charge_target_enabled", set_charge_target_3ph |-> "set_charge_target_enabled",
    set_charge_target_soc_3ph |-> "set_charge_target_soc"]
Installer(name) == \/ name \in DOMAIN PlainInstaller \union DOMAIN SwitchesInstaller \union DOMAIN GridTab \union DOMAIN Destructive
                   \/ name = "set_export_power_rate"

EmsName == [set_ems_charge_slot |-> "set_charge_slot", set_ems_charge_slot_start |-> "set_charge_slot_start", set_ems_charge_slot_end |-> "set_charge_slot_end",
    set_ems_discharge_slot |-> "set_discharge_slot", set_ems_discharge_slot_start |-> "set_discharge_slot_start",
    set_ems_discharge_slot_end |-> "set_discharge_slot_end", set_ems_export_slot |-> "set_export_slot",
    set_ems_export_slot_start |-> "set_export_slot_start", set_ems_export_slot_end |-> "set_export_slot_end"]
OldSlots == [set_charge_slot_1 |-> <<"set_charge_slot", 1>>, set_charge_slot_2 |-> <<"set_charge_slot", 2>>,
    set_discharge_slot_1 |-> <<"set_discharge_slot", 1>>, set_discharge_slot_2 |-> <<"set_discharge_slot", 2>>,
    reset_charge_slot_1 |-> <<"reset_charge_slot", 1>>, reset_charge_slot_2 |-> <<"reset_charge_slot", 2>>,
    reset_discharge_slot_1 |-> <<"reset_discharge_slot", 1>>, reset_discharge_slot_2 |-> <<"reset_discharge_slot", 2>>]

Arg(a, j) == IF j \in DOMAIN a THEN a[j] ELSE Cleared
SlotCmd(name, layout, a) ==
    LET c == Slots(layout, "charge")
        d == Slots(layout, "discharge")
    IN CASE name = "set_charge_slot_start" -> Endpoint(c, a[1], 1, a[2])
         [] name = "set_charge_slot_end" -> Endpoint(c, a[1], 2, a[2])
         [] name = "set_discharge_slot_start" -> Endpoint(d, a[1], 1, a[2])
         [] name = "set_discharge_slot_end" -> Endpoint(d, a[1], 2, a[2])
         [] name = "set_charge_slot" -> Both(c, a[1], a[2])
         [] name = "set_discharge_slot" -> Both(d, a[1], a[2])
         [] name = "reset_charge_slot" -> Both(c, a[1], Cleared)
         [] name = "reset_discharge_slot" -> Both(d, a[1], Cleared)
         [] name = "set_export_slot_start" -> Endpoint(Export, a[1], 1, a[2])
         [] name = "set_export_slot_end" -> Endpoint(Export, a[1], 2, a[2])
         [] name = "set_export_slot" -> Both(Export, a[1], a[2])
         [] name = "set_smart_load_slot_start" -> Endpoint(Smart, a[1], 1, a[2])
         [] name = "set_smart_load_slot_end" -> Endpoint(Smart, a[1], 2, a[2])
         [] name = "set_smart_load_slot" -> Both(Smart, a[1], a[2])
         [] name = "set_pause_slot_start" -> Endpoint(<<P(319)>>, N(1), 1, a[1])
         [] name = "set_pause_slot_end" -> Endpoint(<<P(319)>>, N(1), 2, a[1])
         [] name = "set_pause_slot" -> Both(<<P(319)>>, N(1), a[1])
SlotNames == {"set_charge_slot_start", "set_charge_slot_end", "set_discharge_slot_start", "set_discharge_slot_end", "set_charge_slot",
    "set_discharge_slot", "reset_charge_slot", "reset_discharge_slot", "set_export_slot_start", "set_export_slot_end", "set_export_slot",
    "set_smart_load_slot_start", "set_smart_load_slot_end", "set_smart_load_slot", "set_pause_slot_start", "set_pause_slot_end", "set_pause_slot"}

Basic(name, layout, a) ==
    CASE name \in DOMAIN Plain(layout) -> LET p == Plain(layout)[name] IN Number(p[1], a[1], p[2], p[3])
      [] name \in DOMAIN PlainInstaller -> LET p == PlainInstaller[name] IN Number(p[1], a[1], p[2], p[3])
      [] name \in DOMAIN Switches(layout) -> Switch(Switches(layout)[name], a[1])
      [] name \in DOMAIN SwitchesInstaller -> Switch(SwitchesInstaller[name], a[1])
      [] name \in DOMAIN Fixed(layout) -> Do(Fixed(layout)[name])
      [] name \in {"set_charge_target_enabled", "set_charge_target"} -> ChargeTarget(layout, a[1])
      [] name = "set_calibrate_battery_soc" ->
            IF Len(a) = 0 THEN Do(<<<<29, 1>>>>) ELSE If(InRange(a[1], 0, 3) /\ Whole(a[1]) # 2, Number(29, a[1], 0, 3))
      [] name = "set_system_date_time" -> DateTime(a[1])
      [] name = "set_mode_storage" ->
            Storage(layout, IF Len(a) = 0 THEN [k |-> "slot", s |-> 1600, e |-> 700] ELSE a[1], Arg(a, 2), IF Len(a) > 2 THEN a[3] ELSE [b |-> FALSE])
      [] name = "set_ems_charge_target_soc" -> Target(2055, a[1], a[2])
      [] name = "set_ems_discharge_target_soc" -> Target(2046, a[1], a[2])
      [] name = "set_ems_export_target_soc" -> Target(2064, a[1], a[2])
      [] name = "set_export_power_rate" -> Scaled(1063, a[1], 10, 0, 1000)
      [] name \in DOMAIN GridTab -> Grid(name, a[1])
      [] name \in DOMAIN Destructive -> Do(<<<<Destructive[name], 1>>>>)
      [] name \in SlotNames -> SlotCmd(name, layout, a)
Result(name, layout, a, confirm) ==
    IF NeedsConfirm(name) /\ ~confirm THEN Refuse
    ELSE IF name \in DOMAIN ThreePhaseName THEN Basic(ThreePhaseName[name], "three", a)
    ELSE IF name \in DOMAIN EmsName THEN Basic(EmsName[name], "ems", a)
    ELSE IF name \in DOMAIN OldSlots THEN Basic(OldSlots[name][1], layout, <<N(OldSlots[name][2])>> \o a)
    ELSE Basic(name, layout, a)
Names == DOMAIN Plain("single") \union DOMAIN PlainInstaller \union DOMAIN Switches("single") \union DOMAIN SwitchesInstaller
         \union DOMAIN Fixed("single") \union DOMAIN GridTab \union DOMAIN Destructive \union SlotNames \union DOMAIN ThreePhaseName
         \union DOMAIN EmsName \union DOMAIN OldSlots
         \union {"set_charge_target_enabled", "set_charge_target", "set_calibrate_battery_soc", "set_system_date_time", "set_mode_storage",
                 "set_ems_charge_target_soc", "set_ems_discharge_target_soc", "set_ems_export_target_soc", "set_export_power_rate"}

(***************************************************************************)
(* How a register reads back: setting name on each kind of plant.            *)
(***************************************************************************)
SlotName(prefix, tab, r) == LET j == CHOOSE k \in DOMAIN tab : r \in {tab[k][1], tab[k][2]} IN prefix \o ToString(j)
InSlots(tab, r) == \E k \in DOMAIN tab : r \in {tab[k][1], tab[k][2]}
PairOf(tab, r) == tab[CHOOSE k \in DOMAIN tab : r \in {tab[k][1], tab[k][2]}]
Scalars(layout) ==
    IF layout = "ems" THEN {}
    ELSE {<<20, "enable_charge_target", "bool">>, <<27, "battery_power_mode", "num">>, <<29, "battery_calibration_stage", "num">>,
          <<50, "active_power_rate", "num">>, <<59, "enable_discharge", "bool">>, <<111, "battery_charge_limit", "num">>,
          <<112, "battery_discharge_limit", "num">>, <<114, "battery_discharge_min_power_reserve", "num">>, <<163, "inverter_reboot", "num">>,
          <<166, "enable_rtc", "bool">>}
         \union {<<96, "enable_charge", "bool">>, <<311, "export_priority", "num">>, <<317, "enable_eps", "bool">>, <<318, "battery_pause_mode", "num">>}
         \union (IF layout = "three"
                 THEN {<<1078, "battery_reserve_soc", "num">>, <<1109, "battery_soc_reserve", "num">>, <<1111, "charge_target_soc", "num">>,
                       <<1112, "ac_charge_enable", "bool">>, <<1122, "force_discharge_enable", "bool">>, <<1123, "force_charge_enable", "bool">>}
                 ELSE {<<110, "battery_soc_reserve", "num">>, <<116, "charge_target_soc", "num">>,
                       <<313, "battery_charge_limit_ac", "num">>, <<314, "battery_discharge_limit_ac", "num">>})
EmsScalars == {<<2040, "plant_status", "num">>, <<2071, "export_power_limit", "num">>}
    \union {<<2043 + 3 * j, "discharge_target_" \o ToString(j), "num">> : j \in 1..3}
    \union {<<2052 + 3 * j, "charge_target_" \o ToString(j), "num">> : j \in 1..3}
    \union {<<2061 + 3 * j, "export_target_" \o ToString(j), "num">> : j \in 1..3}
\* [f, t, regs] of the setting a register belongs to; f = "" when it is not read back
Setting(layout, r) ==
    LET sc == {x \in (IF layout = "ems" THEN EmsScalars ELSE Scalars(layout)) : x[1] = r}
        wide == IF layout = "single" THEN "ext" ELSE layout
        c == Slots(wide, "charge")
        d == Slots(wide, "discharge")
    IN IF sc # {} THEN LET x == CHOOSE y \in sc : TRUE IN [f |-> x[2], t |-> x[3], regs |-> <<r>>]
       ELSE IF InSlots(c, r) THEN [f |-> SlotName("charge_slot_", c, r), t |-> "slot", regs |-> PairOf(c, r)]
       ELSE IF InSlots(d, r) THEN [f |-> SlotName("discharge_slot_", d, r), t |-> "slot", regs |-> PairOf(d, r)]
       ELSE IF layout = "ems" /\ InSlots(Export, r) THEN [f |-> SlotName("export_slot_", Export, r), t |-> "slot", regs |-> PairOf(Export, r)]
       ELSE IF layout # "ems" /\ r \in 319..320 THEN [f |-> "battery_pause_slot_1", t |-> "slot", regs |-> <<319, 320>>]
       ELSE IF layout # "ems" /\ r \in 35..40 THEN [f |-> "system_time", t |-> "date", regs |-> <<35, 36, 37, 38, 39, 40>>]
       ELSE [f |-> "", t |-> "", regs |-> <<>>]
=============================================================================
