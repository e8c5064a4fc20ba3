------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* What every attribute of every device model reads for given register      *)
(* contents.  attributes.ndjson (part of this specification) lists, per     *)
(* class and attribute, the registers it is made of, the conversions they    *)
(* go through, and the plausible range of the result; this module says what   *)
(* those conversions mean, when an attribute is absent, and what the derived   *)
(* attributes (routed energies, balances, capacities, aliases) come to.        *)
(*                                                                           *)
(* TLC integers have 32 bits, so a number is its sign and the three 16-bit     *)
(* words of its magnitude in units of 1/10000.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

Table == ndJsonDeserialize("attributes.ndjson")
Aliases == ndJsonDeserialize("aliases.ndjson")
Ratings == ndJsonDeserialize("ratings.ndjson")
Classes == {Table[k].cls : k \in DOMAIN Table}
Entries == [c \in Classes |-> LET es == SelectSeq(Table, LAMBDA e : e.cls = c) IN [n \in {es[k].name : k \in DOMAIN es} |-> CHOOSE e \in {es[k] : k \in DOMAIN es} : e.name = n]]

(* ---- numbers -------------------------------------------------------------*)
Word == 65536
Sum3(a, b) == LET l == a[3] + b[3] m == a[2] + b[2] + (l \div Word) IN <<a[1] + b[1] + (m \div Word), m % Word, l % Word>>
Diff3(a, b) == LET l == a[3] - b[3] m == a[2] - b[2] - (IF l < 0 THEN 1 ELSE 0) IN <<a[1] - b[1] - (IF m < 0 THEN 1 ELSE 0), (m + Word) % Word, (l + Word) % Word>>
Less3(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Zero3 == <<0, 0, 0>>
Num(s, w) == [k |-> "n", s |-> IF w = Zero3 THEN 0 ELSE s, w |-> w]
Times(hi, lo, f) == LET l == lo * f h == hi * f + (l \div Word) IN <<h \div Word, h % Word, l % Word>>        \* f <= 10000
Whole(n) == IF n < 0 THEN Num(-1, Times((-n) \div Word, (-n) % Word, 10000)) ELSE Num(1, Times(n \div Word, n % Word, 10000))
Units(n) == IF n < 0 THEN Num(-1, <<0, (-n) \div Word, (-n) % Word>>) ELSE Num(1, <<0, n \div Word, n % Word>>)   \* n ten-thousandths
Neg(a) == Num(-a.s, a.w)
Add(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
             ELSE IF a.s = b.s THEN Num(a.s, Sum3(a.w, b.w))
             ELSE IF Less3(a.w, b.w) THEN Num(b.s, Diff3(b.w, a.w)) ELSE Num(a.s, Diff3(a.w, b.w))
Sub(a, b) == Add(a, Neg(b))
Below(a, b) == Sub(a, b).s < 0
AtLeast0(a) == IF a.s < 0 THEN Num(0, Zero3) ELSE a

None == [k |-> "none"]
Bool(b) == [k |-> "b", v |-> b]
Str(codes) == [k |-> "str", v |-> codes]
Frac(neg, hi, lo, d) == [k |-> "i", neg |-> neg, hi |-> hi, lo |-> lo, d |-> d]          \* +-(hi:lo) / d
Final(v) == IF v.k = "i" THEN Num(IF v.neg THEN -1 ELSE 1, Times(v.hi, v.lo, 10000 \div v.d)) ELSE v

(* ---- text ------------------------------------------------------------------*)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Nibbles(n) == <<n \div 4096, (n \div 256) % 16, (n \div 16) % 16, n % 16>>
HexText(hi, lo, width) == LET ns == Nibbles(hi) \o Nibbles(lo)
                              first == LET nz == {i \in 1..8 : ns[i] # 0} IN IF nz = {} THEN 8 ELSE CHOOSE i \in nz : \A j \in nz : i <= j
                              from == IF 9 - width < first THEN 9 - width ELSE first
                          IN [i \in 1..(9 - from) |-> HexDigit(ns[from + i - 1])]
Bytes(r) == [i \in 1..(2 * Len(r)) |-> IF i % 2 = 1 THEN r[(i + 1) \div 2] \div 256 ELSE r[i \div 2] % 256]
\* capital letters of Latin-1, as codes; the sharp s becomes two letters
Capital(c) == CASE c \in 97..122 -> <<c - 32>>
                [] c \in (224..254) \ {247} -> <<c - 32>>
                [] c = 255 -> <<376>>
                [] c = 181 -> <<924>>
                [] c = 223 -> <<83, 83>>
                [] OTHER -> <<c>>
NoNul(s) == SelectSeq(s, LAMBDA c : c # 0)
Text(r) == FlattenSeq([i \in DOMAIN NoNul(Bytes(r)) |-> Capital(NoNul(Bytes(r))[i])])
GatewayText(r) == NoNul(Bytes(SubSeq(r, 1, 2))) \o FlattenSeq([i \in 1..4 |-> Dec(Bytes(SubSeq(r, 3, 4))[i])])

(* ---- time --------------------------------------------------------------------*)
TimeOk(t) == t \div 100 <= 23 /\ t % 100 <= 59
Slot(a, b) == IF a = 60 \/ b = 60 \/ ~TimeOk(a) \/ ~TimeOk(b) THEN None ELSE [k |-> "slot", v |-> <<a \div 100, a % 100, b \div 100, b % 100>>]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
Date(r) == LET y == r[1] + 2000
           IN IF y <= 9999 /\ r[2] \in 1..12 /\ r[3] >= 1 /\ r[3] <= DaysIn(y, r[2]) /\ r[4] <= 23 /\ r[5] <= 59 /\ r[6] <= 59
              THEN [k |-> "date", v |-> <<y, r[2], r[3], r[4], r[5], r[6]>>] ELSE None

(* ---- conversions -----------------------------------------------------------------*)
Pow2(n) == 2 ^ n
Bit(hi, lo, b) == IF b < 16 THEN (lo \div Pow2(b)) % 2 ELSE (hi \div Pow2(b - 16)) % 2
Member(o, v) == LET of(n) == {j \in DOMAIN o.members : o.members[j][1] = n}
                    by == {j \in DOMAIN o.members : o.members[j][2] = o.miss}
                IN IF of(v) # {} THEN LET j == CHOOSE j \in of(v) : TRUE IN [k |-> "e", v |-> v, name |-> o.members[j][2]]
                   ELSE IF by # {} THEN LET j == CHOOSE j \in by : TRUE IN [k |-> "e", v |-> o.members[j][1], name |-> o.miss]
                   ELSE None
\* the first conversion takes the registers
First(o, r) ==
    CASE o.op \in {"uint16", "bool", "milli", "centi", "deci"} ->
           (IF o.op = "bool" THEN Bool(r[1] # 0)
            ELSE Frac(FALSE, 0, r[1], CASE o.op = "uint16" -> 1 [] o.op = "deci" -> 10 [] o.op = "centi" -> 100 [] o.op = "milli" -> 1000))
      [] o.op = "int16" -> IF r[1] >= 32768 THEN Frac(TRUE, 0, Word - r[1], 1) ELSE Frac(FALSE, 0, r[1], 1)
      [] o.op = "uint32" -> Frac(FALSE, r[1], r[2], 1)
      [] o.op = "int32" -> IF r[1] < 32768 THEN Frac(FALSE, r[1], r[2], 1)
                           ELSE IF r[2] = 0 THEN Frac(TRUE, Word - r[1], 0, 1) ELSE Frac(TRUE, 65535 - r[1], Word - r[2], 1)
      [] o.op = "byte" -> Frac(FALSE, 0, IF o.n = 0 THEN r[1] \div 256 ELSE r[1] % 256, 1)
      [] o.op = "bits" -> Frac(FALSE, 0, (r[1] \div Pow2(15 - o.high)) % Pow2(o.high - o.low + 1), 1)
      [] o.op = "pf" -> IF r[1] < 10000 THEN Frac(TRUE, 0, 10000 - r[1], 10000) ELSE Frac(FALSE, 0, r[1] - 10000, 10000)
      [] o.op = "pf_signed" -> IF r[1] >= 32768 THEN Frac(TRUE, 0, Word - r[1], 10000) ELSE Frac(FALSE, 0, r[1], 10000)
      [] o.op = "nominal_voltage" -> IF r[1] > 2 THEN None ELSE Frac(FALSE, 0, <<230, 208, 240>>[r[1] + 1], 1)
      [] o.op = "nominal_frequency" -> IF r[1] > 1 THEN None ELSE Frac(FALSE, 0, <<50, 60>>[r[1] + 1], 1)
      [] o.op = "timeslot" -> Slot(r[1], r[2])
      [] o.op = "datetime" -> Date(r)
      [] o.op = "string" -> Str(Text(r))
      [] o.op = "gateway_version" -> Str(GatewayText(r))
      [] o.op = "firmware_version" -> Str(<<68, 48, 46>> \o Dec(r[1]) \o <<45, 65, 48, 46>> \o Dec(r[2]))
      [] o.op = "hex" -> Str(HexText(0, r[1], o.width))
      [] o.op = "flags" -> LET on == SelectSeq(o.bits, LAMBDA b : Bit(0, r[1], b[1]) = 1) IN [k |-> "txt", v |-> [j \in DOMAIN on |-> on[j][2]]]
\* the second takes the first's result
Then(o, v) ==
    CASE v.k = "none" -> None
      [] o.op = "deci" -> [v EXCEPT !.d = 10 * @]
      [] o.op = "centi" -> [v EXCEPT !.d = 100 * @]
      [] o.op = "milli" -> [v EXCEPT !.d = 1000 * @]
      [] o.op = "negate" -> [v EXCEPT !.neg = ~@]
      [] o.op = "bool" -> Bool(v.hi # 0 \/ v.lo # 0)
      [] o.op = "hex" -> Str(HexText(v.hi, v.lo, o.width))
      [] o.op = "fixed2" -> Str(Dec(v.lo \div 100) \o <<46, 48 + ((v.lo \div 10) % 10), 48 + (v.lo % 10)>>)
      [] o.op = "enum" -> IF v.hi = 0 THEN Member(o, v.lo) ELSE Member(o, -1)
      [] o.op = "family" -> LET j == {j \in DOMAIN o.members : o.members[j][1] = v.v[1]} IN IF j = {} THEN None ELSE [k |-> "e", v |-> 0, name |-> o.members[CHOOSE x \in j : TRUE][2]]
      [] o.op = "flags" -> LET on == SelectSeq(o.bits, LAMBDA b : Bit(v.hi, v.lo, b[1]) = 1) IN [k |-> "txt", v |-> [j \in DOMAIN on |-> on[j][2]]]

\* outside the plausible range, unless nothing is there to be implausible
Implausible(e, v) == v.k = "n" /\ ((e.lo # <<>> /\ Below(v, Num(e.lo[1].s, e.lo[1].w))) \/ (e.hi # <<>> /\ Below(Num(e.hi[1].s, e.hi[1].w), v)))
Value(e, c) ==
    IF \E j \in DOMAIN e.regs : e.regs[j] \notin DOMAIN c THEN None
    ELSE LET r == [j \in DOMAIN e.regs |-> c[e.regs[j]]]
             v == Final(IF Len(e.ops) = 1 THEN First(e.ops[1], r) ELSE Then(e.ops[2], First(e.ops[1], r)))
         IN IF Implausible(e, v) /\ \E j \in DOMAIN r : r[j] # 0 THEN None ELSE v
\* what the library says about an attribute itself: its registers in wire order, its decimal places
Precision(e) == LET o == e.ops[Len(e.ops)].op
                IN CASE o \in {"uint16", "int16", "uint32", "int32", "byte", "bits", "negate"} -> 0
                     [] o = "deci" -> 1 [] o = "centi" -> 2 [] o = "milli" -> 3 [] o \in {"pf", "pf_signed"} -> 4
                     [] OTHER -> -1
Layout(cls) == [n \in DOMAIN Entries[cls] |-> [regs |-> Entries[cls][n].regs, prec |-> Precision(Entries[cls][n])]]
Decoded(cls, c) == [n \in DOMAIN Entries[cls] |-> Value(Entries[cls][n], c)]

(* ---- which product this is -----------------------------------------------------*)
Family(dtc) == IF dtc \div 4096 \in 2..8 THEN <<"HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE">>[(dtc \div 4096) - 1] ELSE ""
Product(dtc, fw) ==
    CASE dtc \div 256 = 32 -> (CASE fw \div 100 = 3 -> "HYBRID_GEN3" [] fw \div 100 \in {8, 9} -> "HYBRID_GEN2" [] OTHER -> "HYBRID_GEN1")
      [] dtc \div 256 = 33 -> "POLAR" [] dtc \div 256 = 65 -> "AIO_COMMERCIAL" [] dtc \div 256 = 81 -> "EMS_COMMERCIAL"
      [] dtc \div 256 = 129 -> "HYBRID_HV_GEN3" [] dtc \div 256 = 130 -> "ALL_IN_ONE_HYBRID" [] dtc \div 256 = 131 -> "HYBRID_GEN4"
      [] OTHER -> Family(dtc)
Rating(dtc) == LET j == {j \in DOMAIN Ratings : Ratings[j].dtc = dtc} IN IF j = {} THEN [rated |-> -1, battery |-> -1] ELSE Ratings[CHOOSE x \in j : TRUE]
Watts(n) == IF n < 0 THEN None ELSE Whole(n)
Has(c, r) == r \in DOMAIN c
BatteryMaxPower(c) == IF ~Has(c, "HR_0") \/ ~Has(c, "HR_21") THEN None
                      ELSE IF c["HR_0"] \div 256 = 32 THEN Whole(IF c["HR_21"] \div 100 \in {3, 8, 9} THEN 3600 ELSE 2600)
                      ELSE Watts(Rating(c["HR_0"]).battery)
InverterMaxPower(c) == IF Has(c, "HR_0") THEN Watts(Rating(c["HR_0"]).rated) ELSE None
\* nominal pack voltage of the family, tenths of a volt
PackVolts(f) == CASE f = "ALL_IN_ONE" -> 3070 [] f \in {"HYBRID_3PH", "AC_3PH"} -> 768 [] OTHER -> 512
CapacityKwh(c) == IF ~Has(c, "HR_0") \/ ~Has(c, "HR_55") \/ Family(c["HR_0"]) = "" THEN None ELSE Units(c["HR_55"] * PackVolts(Family(c["HR_0"])))
AcCoupled(c) == Bool(Has(c, "HR_0") /\ Family(c["HR_0"]) \in {"AC", "AC_3PH"})

(* ---- where the product keeps its timed slots ------------------------------------*)
T == INSTANCE Topology
More(first, base) == first \o [n \in 1..8 |-> <<base + 3 * (n - 1), base + 3 * (n - 1) + 1>>]
SlotMap(layout) ==
    LET c == IF layout = "three" THEN <<<<1113, 1114>>, <<1115, 1116>>>> ELSE <<<<94, 95>>, <<31, 32>>>>
        d == IF layout = "three" THEN <<<<1118, 1119>>, <<1120, 1121>>>> ELSE <<<<56, 57>>, <<44, 45>>>>
    IN [k |-> "slots", c |-> IF layout = "single" THEN c ELSE More(c, 246), d |-> IF layout = "single" THEN d ELSE More(d, 276)]

(* ---- derived attributes ------------------------------------------------------------*)
Known(vs) == \A j \in DOMAIN vs : vs[j].k # "none"
Plus(a, b) == IF Known(<<a, b>>) THEN Add(a, b) ELSE None
Minus(a, b) == IF Known(<<a, b>>) THEN Sub(a, b) ELSE None
Floor0(a) == IF a.k = "none" THEN None ELSE AtLeast0(a)
Flip(a) == IF a.k = "none" THEN None ELSE Neg(a)
WithAliases(cls, V) == LET as == SelectSeq(Aliases, LAMBDA a : a.cls = cls)
                       IN [n \in {as[j].name : j \in DOMAIN as} |-> V[(CHOOSE a \in {as[j] : j \in DOMAIN as} : a.name = n).of]] @@ V

SinglePhase(c) ==
    LET D == Decoded("SinglePhaseInverter", c)
        known == Has(c, "HR_0") /\ Has(c, "HR_21")
        prod == IF known THEN Product(c["HR_0"], c["HR_21"]) ELSE ""
        acSide == prod \in {"AC", "ALL_IN_ONE"}
        \* on AC-side products IR44-46 count what the inverter put out, and the PV string readings are no strings'
        B == [n \in DOMAIN D |-> IF acSide /\ n \in {"e_pv_generation_today", "e_pv_generation_total", "v_pv1", "v_pv2", "i_pv1", "i_pv2"} THEN None ELSE D[n]]
        outToday == IF acSide THEN D["e_pv_generation_today"] ELSE None
        outTotal == IF acSide THEN D["e_pv_generation_total"] ELSE None
        today == CASE prod = "HYBRID_GEN1" -> "alt2" [] prod \in {"HYBRID_GEN2", "AC", "ALL_IN_ONE"} -> "alt1" [] OTHER -> ""
        chToday == CASE today = "alt1" -> D["e_battery_charge_today_alt1"] [] today = "alt2" -> D["e_battery_charge_today_alt2"] [] OTHER -> None
        disToday == CASE today = "alt1" -> D["e_battery_discharge_today_alt1"] [] today = "alt2" -> D["e_battery_discharge_today_alt2"] [] OTHER -> None
        self == Floor0(Minus(B["e_pv_generation_today"], B["e_grid_out_day"]))
        toBattery == Floor0(Minus(chToday, B["e_ac_charge_today"]))
        fault == IF Known(<<D["inverter_fault_code"], D["inverter_warning_code"]>>) THEN Str(D["inverter_fault_code"].v \o D["inverter_warning_code"].v) ELSE None
    IN WithAliases("SinglePhaseInverter", [
         e_inverter_out_today |-> outToday, e_inverter_out_total |-> outTotal,
         e_inverter_out_day |-> IF outToday.k # "none" THEN outToday ELSE B["e_pv_generation_today"],
         e_battery_charge_today |-> chToday, e_battery_discharge_today |-> disToday,
         e_battery_charge_total |-> IF prod = "HYBRID_GEN1" THEN D["e_battery_charge_total_alt1"] ELSE None,
         e_battery_discharge_total |-> IF prod = "HYBRID_GEN1" THEN D["e_battery_discharge_total_alt1"] ELSE None,
         grid_import_power |-> Floor0(Flip(B["p_grid_out"])), grid_export_power |-> Floor0(B["p_grid_out"]),
         battery_charge_power |-> Floor0(Flip(B["p_battery"])), battery_discharge_power |-> Floor0(B["p_battery"]),
         battery_capacity_kwh |-> CapacityKwh(c), battery_max_power |-> BatteryMaxPower(c), inverter_max_power |-> InverterMaxPower(c),
         is_ac_coupled |-> AcCoupled(c),
         e_consumption_today |-> Minus(Minus(Plus(B["e_pv_generation_today"], B["e_grid_in_day"]), B["e_grid_out_day"]), B["e_ac_charge_today"]),
         e_self_consumption_today |-> self,
         e_self_consumption_total |-> Floor0(Minus(B["e_pv_generation_total"], B["e_grid_out_total"])),
         e_pv_direct_today |-> Floor0(Minus(Minus(B["e_pv_generation_today"], B["e_grid_out_day"]), toBattery)),
         p_pv |-> Plus(B["p_pv1"], B["p_pv2"]), e_pv_day |-> Plus(B["e_pv1_day"], B["e_pv2_day"]),
         slot_map |-> SlotMap(IF known /\ T!Extended(T!ModelOf(c["HR_0"], c["HR_21"]), c["HR_21"]) THEN "ext" ELSE "single"),
         fault_code |-> fault] @@ B)

ThreePhase(c) ==
    LET D == Decoded("ThreePhaseInverter", c)
    IN WithAliases("ThreePhaseInverter", [
         grid_import_power |-> D["p_meter_import"], grid_export_power |-> D["p_meter_export"],
         battery_charge_power |-> D["p_battery_charge"], battery_discharge_power |-> D["p_battery_discharge"],
         p_battery |-> Minus(D["p_battery_discharge"], D["p_battery_charge"]),
         e_battery_throughput |-> Plus(D["e_battery_charge_total"], D["e_battery_discharge_total"]),
         p_pv |-> Plus(D["p_pv1"], D["p_pv2"]), e_pv_day |-> D["e_pv_today"], e_inverter_out_day |-> D["e_pv_today"],
         battery_capacity_kwh |-> CapacityKwh(c), battery_max_power |-> BatteryMaxPower(c), inverter_max_power |-> InverterMaxPower(c),
         slot_map |-> SlotMap("three"),
         is_ac_coupled |-> AcCoupled(c)] @@ D)

\* energy left in a pack: capacity times voltage, to the nearest Wh (either way at an exact half).
\* Beyond what 32 bits can multiply exactly (no real pack) only a number is asked for.
AnyNumber == [k |-> "num"]
Near(q, r, d) == [k |-> "oneof", v |-> IF 2 * r < d THEN {Whole(q)} ELSE IF 2 * r > d THEN {Whole(q + 1)} ELSE {Whole(q), Whole(q + 1)}]
MeasuredWh(c, D) ==
    IF ~Known(<<D["cap_remaining"], D["v_out"]>>) THEN None
    ELSE IF c["IR_88"] # 0 \/ c["IR_82"] > 1 THEN AnyNumber
    ELSE LET v == c["IR_82"] * Word + c["IR_83"]                       \* millivolts, < 131072
             w == Times(0, v, c["IR_89"] \div 16)                       \* cap * v = 16 * (cap div 16) * v + (cap mod 16) * v
             total == Sum3(Times(w[2], w[3], 16), Times(v \div Word, v % Word, c["IR_89"] % 16))
             t == total[1] * Word + total[2]                            \* divide by 1000, then by 100
             q1hi == t \div 1000
             q1lo == ((t % 1000) * Word + total[3]) \div 1000
             r1 == ((t % 1000) * Word + total[3]) % 1000
             q1 == q1hi * Word + q1lo
         IN Near(q1 \div 100, (q1 % 100) * 1000 + r1, 100000)
NominalWh(c, D) ==
    IF D["cap_remaining"].k = "none" THEN None
    ELSE IF D["num_cells"].k = "none" \/ D["num_cells"].s = 0 THEN MeasuredWh(c, D)
    ELSE IF c["IR_88"] # 0 \/ c["IR_97"] > 1000 THEN AnyNumber
    ELSE LET p == c["IR_89"] * (c["IR_97"] * 32) IN Near(p \div 1000, p % 1000, 1000)       \* cap/100 * n * 3.2

SerialOk(s) == Len(s) = 10 /\ \A j \in DOMAIN s : s[j] \in 48..57 \/ s[j] \in 65..90
Blank10 == [j \in 1..10 |-> 32]
Present(v) == Bool(v.k # "none" /\ v.v # <<>> /\ v.v # Blank10)
Strip(s) == LET keep == {j \in DOMAIN s : s[j] # 32 /\ s[j] # 0}
            IN IF keep = {} THEN <<>> ELSE SubSeq(s, CHOOSE j \in keep : \A x \in keep : j <= x, CHOOSE j \in keep : \A x \in keep : x <= j)
Managed(D) == LET of(n) == LET p == <<"inverter_1", "inverter_2", "inverter_3", "inverter_4">>[n]
                               s == D[p \o "_serial_number"]
                           IN IF s.k = "none" \/ Strip(s.v) = <<>> THEN <<>>
                              ELSE <<[serial |-> Strip(s.v), status |-> D[p \o "_status"], power |-> D[p \o "_power"], soc |-> D[p \o "_soc"], temp |-> D[p \o "_temp"]]>>
              IN [k |-> "list", v |-> of(1) \o of(2) \o of(3) \o of(4)]

\* everything a device model of a class offers
View(cls, c) ==
    LET D == Decoded(cls, c)
    IN CASE cls = "SinglePhaseInverter" -> SinglePhase(c)
         [] cls = "ThreePhaseInverter" -> ThreePhase(c)
         [] cls = "Battery" -> [is_valid |-> Bool(D["serial_number"].k # "none" /\ SerialOk(D["serial_number"].v)),
                                remaining_energy_nominal_wh |-> NominalWh(c, D), remaining_energy_measured_wh |-> MeasuredWh(c, D)] @@ D
         [] cls \in {"Bmu", "AioBatteryModule"} -> [is_valid |-> Present(D["serial_number"])] @@ D
         [] cls = "LvBcu" -> [is_valid |-> Bool(\E r \in {"IR_60", "IR_61", "IR_62", "IR_63"} : Has(c, r) /\ c[r] # 0)] @@ D
         [] cls = "Bcu" -> LET v == D["pack_software_version"]
                           IN WithAliases("Bcu", [is_valid |-> Bool(Present(v).v /\ \E j \in DOMAIN v.v : v.v[j] # 48)] @@ D)
         [] cls = "Ems" -> [is_valid |-> Bool(D["ems_status"].k # "none"), managed_inverters |-> Managed(D),
                            plant_enabled |-> IF D["plant_status"].k = "none" THEN None ELSE Bool(D["plant_status"].v # 0)] @@ D
         [] cls \in {"GatewayV1", "GatewayV2"} -> [is_valid |-> Bool(D["software_version"].k # "none")] @@ D
         [] cls = "Meter" -> [is_valid |-> Bool(D["v_phase_1"].k # "none" /\ D["v_phase_1"].s # 0)] @@ D
         [] OTHER -> D
=============================================================================
