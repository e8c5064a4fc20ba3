------------------------------ MODULE MC_Decode ------------------------------
(***************************************************************************)
(* Decode checked on its own: every attribute of every class, over contents  *)
(* at the edges of its conversions and of its range, and every derived        *)
(* attribute of the inverters over products, firmwares, signs and sizes.       *)
(***************************************************************************)
EXTENDS Decode
CONSTANT Deep
VARIABLES ix, r, kind      \* an attribute and its registers' contents; or one of the derived families

Vals == {0, 1, 2, 9, 59, 60, 100, 999, 2359, 9999, 10000, 10001, 32767, 32768, 65535} \cup (IF Deep THEN {3, 4, 5, 101, 256, 257, 1000, 2400, 5000, 5001, 20000, 65534, 32769} ELSE {})
Pair == IF Deep THEN Vals ELSE {0, 1, 15, 60, 2359, 10000, 32768, 65535}
Few == {0, 1, 24, 16961, 65535}
Contents(n) == IF n = 1 THEN {<<v>> : v \in Vals} ELSE IF n = 2 THEN Pair \X Pair
               ELSE {[j \in 1..n |-> IF j = k THEN a ELSE b] : k \in 1..n, a \in Few, b \in Few}
Products == {8193, 8451, 12289, 16385, 24577, 32769, 33025, 33281, 33537, 0, 43981}
Firm == {299, 303, 449, 899}
Q == {0, 1, 120} \cup (IF Deep THEN {7, 65535} ELSE {})
\* <<product, firmware, grid power, battery power, pv energy, charged, exported>>
Plants == {<<d, f, g, b, e[1], e[2], e[3]>> : d \in Products, f \in Firm, g \in {0, 1, 3000, 62536}, b \in {0, 65535, 32768}, e \in Q \X Q \X Q}
Init == /\ kind \in {"entry", "plant"}
        /\ IF kind = "entry" THEN ix \in DOMAIN Table /\ r \in Contents(Len(Table[ix].regs))
           ELSE ix = 0 /\ r \in Plants
Next == UNCHANGED <<ix, r, kind>>

\* ---- the table itself ---------------------------------------------------------
Bound(x) == Num(x.s, x.w)
ASSUME \A a, b \in DOMAIN Table : a < b /\ Table[a].cls = Table[b].cls => Table[a].name # Table[b].name
ASSUME \A k \in DOMAIN Table : LET e == Table[k] IN
         /\ Len(e.ops) \in {1, 2} /\ e.regs # <<>>
         /\ Cardinality({e.regs[j] : j \in DOMAIN e.regs}) = Len(e.regs)
         /\ e.lo # <<>> /\ e.hi # <<>> => ~Below(Bound(e.hi[1]), Bound(e.lo[1]))
         /\ Len(e.regs) = (CASE e.ops[1].op \in {"uint32", "int32", "timeslot", "firmware_version"} -> 2
                             [] e.ops[1].op = "datetime" -> 6 [] e.ops[1].op = "gateway_version" -> 4
                             [] e.ops[1].op = "string" -> Len(e.regs) [] OTHER -> 1)
ASSUME \A k \in DOMAIN Aliases : Aliases[k].of \in DOMAIN Entries[Aliases[k].cls] \/ Aliases[k].cls \in {"SinglePhaseInverter", "ThreePhaseInverter", "Bcu"}
ASSUME \A a, b \in DOMAIN Ratings : a < b => Ratings[a].dtc # Ratings[b].dtc

\* ---- one attribute ---------------------------------------------------------------
C(e) == [n \in {e.regs[j] : j \in DOMAIN e.regs} |-> r[CHOOSE j \in DOMAIN e.regs : e.regs[j] = n]]
Without(c, n) == [m \in DOMAIN c \ {n} |-> c[m]]
Numeric(e) == e.ops[1].op \in {"uint16", "deci", "centi", "milli", "int16", "uint32", "int32"} /\ (Len(e.ops) = 1 \/ e.ops[2].op \in {"deci", "centi", "milli"})
Free(e) == [e EXCEPT !.lo = <<>>, !.hi = <<>>]
AttributeOk ==
    LET e == Table[ix]
        c == C(e)
        v == Value(e, c)
        free == Value(Free(e), c)
        op == e.ops[1].op
    IN /\ \A n \in DOMAIN c : Value(e, Without(c, n)) = None                                       \* a register not known: absent
       /\ Value(e, [XR_0 |-> 7] @@ c) = v                                                          \* other registers do not matter
       /\ v = None \/ v = free                                                                      \* a reading is never altered by its range
       /\ v.k = "n" /\ (\E j \in DOMAIN r : r[j] # 0) => (e.lo = <<>> \/ ~Below(v, Bound(e.lo[1]))) /\ (e.hi = <<>> \/ ~Below(Bound(e.hi[1]), v))
       /\ v = None /\ free # None => (e.lo # <<>> /\ Below(free, Bound(e.lo[1]))) \/ (e.hi # <<>> /\ Below(Bound(e.hi[1]), free))
       /\ Numeric(e) /\ (\A j \in DOMAIN r : r[j] = 0) => v = Num(0, Zero3)                        \* nothing there reads zero, whatever the range
       /\ Numeric(e) => free.k = "n" /\ (op \notin {"int16", "int32"} => free.s >= 0)
       /\ op = "int16" /\ Numeric(e) /\ r[1] \notin {0, 32768} => Value(Free(e), [n \in DOMAIN c |-> Word - c[n]]) = Neg(free)
       /\ op = "int16" /\ Numeric(e) => (free.s < 0 <=> r[1] >= 32768)
       /\ op = "int32" => (free.s < 0 <=> r[1] >= 32768)
       /\ op \in {"uint32", "uint16", "deci", "centi", "milli"} /\ Numeric(e) /\ r[Len(r)] < 65535 =>       \* more counts, more of it
             Below(free, Value(Free(e), [n \in DOMAIN c |-> IF n = e.regs[Len(r)] THEN c[n] + 1 ELSE c[n]]))
       /\ op = "timeslot" /\ v # None => v.v[1] <= 23 /\ v.v[3] <= 23 /\ v.v[2] <= 59 /\ v.v[4] <= 59 /\ v.v[1] * 100 + v.v[2] = r[1] /\ v.v[3] * 100 + v.v[4] = r[2]
       /\ op = "timeslot" /\ 60 \in {r[1], r[2]} => v = None
       /\ op = "datetime" /\ v # None => v.v[2] \in 1..12 /\ v.v[3] \in 1..31
       /\ v.k = "str" => \A j \in DOMAIN v.v : v.v[j] # 0                                           \* text carries no padding bytes
       /\ v.k = "e" => \E j \in DOMAIN e.ops : e.ops[j].op \in {"enum", "family"}

\* ---- what is worked out from several attributes -------------------------------------
Tens(n) == Units(n * 1000)
PlantOk ==
    LET d == r[1]
        f == r[2]
        c == [HR_0 |-> d, HR_21 |-> f, IR_30 |-> r[3], IR_52 |-> r[4], IR_44 |-> r[5], IR_45 |-> 0, IR_46 |-> r[5], IR_25 |-> r[7], IR_26 |-> r[6], IR_35 |-> 1,
              IR_36 |-> r[6], IR_37 |-> 0, IR_17 |-> 0, IR_19 |-> 0, IR_6 |-> 0, IR_7 |-> 5, IR_181 |-> 9, IR_180 |-> 8, IR_182 |-> 3, IR_183 |-> 4, HR_55 |-> 160]
        V == SinglePhase(c)
        prod == Product(d, f)
        ac == prod \in {"AC", "ALL_IN_ONE"}
        split(whole, out, in) == IF whole.k = "none" THEN out.k = "none" /\ in.k = "none"
                                 ELSE out.s >= 0 /\ in.s >= 0 /\ (out.s = 0 \/ in.s = 0) /\ Sub(out, in) = whole
    IN /\ split(V.p_grid_out, V.grid_export_power, V.grid_import_power)
       /\ split(V.p_battery, V.battery_discharge_power, V.battery_charge_power)
       /\ ac <=> V.e_pv_generation_today = None
       /\ ac <=> V.e_inverter_out_today # None
       /\ V.e_inverter_out_day.k = "n"
       /\ V.e_self_consumption_today # None => V.e_self_consumption_today.s >= 0
       /\ V.e_pv_direct_today # None => V.e_self_consumption_today # None /\ ~Below(V.e_self_consumption_today, V.e_pv_direct_today) /\ V.e_pv_direct_today.s >= 0
       /\ (V.e_battery_charge_today = None) <=> (prod \notin {"HYBRID_GEN1", "HYBRID_GEN2", "AC", "ALL_IN_ONE"})
       /\ V.e_battery_charge_total # None => prod = "HYBRID_GEN1"
       /\ V.is_ac_coupled.v <=> d \div 4096 \in {3, 6}
       /\ V.battery_capacity_kwh = None <=> Family(d) = ""
       /\ Family(d) = "" => V.inverter_max_power = None /\ V.battery_max_power = None
Ok == IF kind = "entry" THEN AttributeOk ELSE PlantOk
=============================================================================
