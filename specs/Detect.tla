------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Detection.  A plant is a function from the addresses that answer to the  *)
(* words that identify what is there:                                       *)
(*   17: <<device type code, firmware>>   160: <<number of stacks>>          *)
(*   112+i (a stack): <<number of modules>>   80..111 (a module), 50..55     *)
(*   (a pack): 5 serial words   1..8 (a meter): <<voltage>>                  *)
(*   49 (the LV controller page): 4 words                                    *)
(* Truth is what a detect of it must report; Reads is the order in which one *)
(* that has had answers from `got` so far goes on asking.                    *)
(***************************************************************************)
EXTENDS Topology, TLC

NoPrior == [model |-> "none"]
At(p, d) == d \in DOMAIN p
Model(p) == ModelOf(p[17][1], p[17][2])

RECURSIVE Bytes(_)
Bytes(ws) == IF ws = <<>> THEN <<>> ELSE <<Head(ws) \div 256, Head(ws) % 256>> \o Bytes(Tail(ws))
Letters(ws) == SelectSeq(Bytes(ws), LAMBDA c : c # 0)
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
GoodSerial(ws) == LET s == Letters(ws) IN Len(s) = 10 /\ \A i \in DOMAIN s : Alnum(s[i])
NotBlank(ws) == LET s == Letters(ws) IN s # <<>> /\ ~(Len(s) = 10 /\ \A i \in DOMAIN s : s[i] = 32)
MeterLive(ws) == ws[1] \in 1..5000
PageLive(ws) == \E i \in DOMAIN ws : ws[i] # 0

Packs == <<50, 51, 52, 53, 54, 55>>
Meters == <<1, 2, 3, 4, 5, 6, 7, 8>>
Lv(model) == model \notin HighVoltage /\ model \notin Ems
Upto(a, n) == [i \in 1..n |-> a + i - 1]
Min(a, b) == IF a < b THEN a ELSE b
Firsts(q) == [i \in DOMAIN q |-> q[i][1]]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

\* the stacks that may be there, those that are, and the module addresses they give
StackIdx(p, prior) == IF prior # NoPrior THEN Firsts(prior.stacks)
                      ELSE IF At(p, 160) THEN Upto(0, Min(p[160][1], 32)) ELSE <<>>
Stacks(p, prior) == LET there == SelectSeq(StackIdx(p, prior), LAMBDA i : At(p, 112 + i)) IN [j \in DOMAIN there |-> <<there[j], p[112 + there[j]][1]>>]
AioCand(stacks, prior) == IF stacks = <<>> THEN <<>> ELSE IF prior # NoPrior THEN prior.aio ELSE Upto(80, Min(stacks[1][2], 4))
ModCand(stacks, prior) ==
    IF stacks = <<>> THEN <<>>
    ELSE IF prior # NoPrior /\ prior.mods # <<>> THEN prior.mods
    ELSE Upto(80, Min(Sum([j \in DOMAIN stacks |-> Min(stacks[j][2], 32)]), 32))
PackCand(prior) == IF prior # NoPrior THEN prior.packs ELSE Packs
MeterCand(prior) == IF prior # NoPrior THEN prior.meters ELSE Meters
PageCand(prior) == IF prior # NoPrior THEN prior.bcu ELSE 49
IsAio(model) == model = "ALL_IN_ONE"
IsHv(model) == model \in HighVoltage

Truth(p, prior) ==
    LET m == Model(p)
        st == IF IsHv(m) THEN Stacks(p, prior) ELSE <<>>
        page == PageCand(prior)
    IN [model |-> m, fw |-> IF p[17][2] = 0 THEN -1 ELSE p[17][2], inv |-> 17,
        stacks |-> st,
        aio |-> IF IsAio(m) THEN SelectSeq(AioCand(st, prior), LAMBDA d : At(p, d) /\ NotBlank(p[d])) ELSE <<>>,
        mods |-> IF IsHv(m) /\ ~IsAio(m) THEN SelectSeq(ModCand(st, prior), LAMBDA d : At(p, d) /\ NotBlank(p[d])) ELSE <<>>,
        meters |-> SelectSeq(MeterCand(prior), LAMBDA d : At(p, d) /\ MeterLive(p[d])),
        packs |-> IF Lv(m) THEN SelectSeq(PackCand(prior), LAMBDA d : At(p, d) /\ GoodSerial(p[d])) ELSE <<>>,
        bcu |-> IF Lv(m) /\ page >= 0 THEN (IF At(p, page) /\ PageLive(p[page]) THEN page ELSE -1) ELSE -1]

\* everything a detect looks for: addresses in the order asked, given what has been learnt (p restricted to what answered)
Asks(p, prior) ==
    LET m == Model(p)
        st == IF IsHv(m) THEN Stacks(p, prior) ELSE <<>>
        idx == StackIdx(p, prior)
    IN (IF IsHv(m) THEN (IF prior = NoPrior THEN <<160>> ELSE <<>>) \o [j \in DOMAIN idx |-> 112 + idx[j]] ELSE <<>>)
       \o (IF IsAio(m) THEN AioCand(st, prior) ELSE IF IsHv(m) THEN ModCand(st, prior) ELSE <<>>)
       \o MeterCand(prior)
       \o (IF Lv(m) THEN PackCand(prior) \o (IF PageCand(prior) >= 0 THEN <<PageCand(prior)>> ELSE <<>>) ELSE <<>>)
\* and where, among those, nothing (valid) was found
Listed(c) == Range(c.packs) \union Range(c.meters) \union Range(c.aio) \union Range(c.mods) \union {112 + x[1] : x \in Range(c.stacks)}
             \union If(c.bcu >= 0, {c.bcu})
Missing(p, prior) == (Range(Asks(p, prior)) \ (Listed(Truth(p, prior)) \union {160})) \union If(160 \in Range(Asks(p, prior)) /\ ~At(p, 160), {160})

Same(a, b) == [a EXCEPT !.fw = 0] = [b EXCEPT !.fw = 0]
\* the verdict of a detect that got all its answers
Verdict(p, prior) ==
    IF prior = NoPrior THEN "caps"
    ELSE IF prior.model # Model(p) THEN "mismatch"
    ELSE IF Same(Truth(p, prior), prior) THEN "caps" ELSE "mismatch"
\* what a hinted detect may talk to
Allowed(p, prior) == {17} \union Listed(prior) \union Range(ModCand(Stacks(p, prior), prior))

(* ---- a saved topology: field name -> [t (type tag), v], read back ---- *)
Codes == [HYBRID |-> "2", AC |-> "3", HYBRID_3PH |-> "4", EMS |-> "5", AC_3PH |-> "6", GATEWAY |-> "7", ALL_IN_ONE |-> "8", HYBRID_GEN1 |-> "20g1",
          HYBRID_GEN2 |-> "20g2", HYBRID_GEN3 |-> "20g3", POLAR |-> "21", AIO_COMMERCIAL |-> "41", EMS_COMMERCIAL |-> "51", HYBRID_HV_GEN3 |-> "81",
          ALL_IN_ONE_HYBRID |-> "82", HYBRID_GEN4 |-> "83"]
Bad == -2
None == [t |-> "none", v |-> 0]
Get(f, new, old) == IF new \in DOMAIN f THEN f[new] ELSE IF old \in DOMAIN f THEN f[old] ELSE None
Absent(x) == x.t \in {"none", "null"}
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Num(_, _, _)
Num(s, b, acc) == IF s = <<>> THEN acc ELSE IF Digit(Head(s)) >= b THEN Bad ELSE Num(Tail(s), b, acc * b + Digit(Head(s)))
Addr(x) ==
    CASE x.t = "int" -> x.v
      [] x.t = "str" -> IF Len(x.b) >= 3 /\ x.b[1] = 48 /\ x.b[2] \in {88, 120} THEN Num(SubSeq(x.b, 3, Len(x.b)), 16, 0)
                        ELSE IF x.b = <<>> THEN Bad ELSE Num(x.b, 10, 0)
      [] OTHER -> Bad
Count(x) == CASE x.t = "int" -> x.v [] x.t = "str" -> IF x.b = <<>> THEN Bad ELSE Num(x.b, 10, 0) [] OTHER -> Bad
Lacks(q) == \E i \in DOMAIN q : q[i] = Bad
Addrs(x) == IF Absent(x) THEN <<>> ELSE IF x.t # "list" THEN <<Bad>> ELSE [i \in DOMAIN x.v |-> Addr(x.v[i])]
StackOf(x) == IF x.t = "list" /\ Len(x.v) = 2 THEN <<Count(x.v[1]), Count(x.v[2])>> ELSE <<Bad, Bad>>
StackList(x) == IF Absent(x) THEN <<>> ELSE IF x.t # "list" THEN <<<<Bad, Bad>>>> ELSE [i \in DOMAIN x.v |-> StackOf(x.v[i])]
Kind(x) == CASE x.t = "str" -> IF x.s \in Models THEN x.s
                               ELSE IF \E m \in Models : Codes[m] = x.s THEN CHOOSE m \in Models : Codes[m] = x.s ELSE "unknown"
             [] x.t = "int" -> IF \E m \in Models : Codes[m] = ToString(x.v) THEN CHOOSE m \in Models : Codes[m] = ToString(x.v) ELSE "unknown"
             [] OTHER -> "unknown"
Load(f) ==
    LET ver == Get(f, "schema_version", "-")
        inv == Get(f, "inverter_address", "inverter_slave")
        page == Get(f, "lv_bcu_address", "-")
        fw == Get(f, "arm_firmware_version", "-")
        st == StackList(Get(f, "bcu_stacks", "bcu_slaves"))
        c == [model |-> Kind(Get(f, "device_type", "-")), fw |-> IF Absent(fw) THEN -1 ELSE IF fw.t = "int" THEN fw.v ELSE Bad, inv |-> Addr(inv),
              stacks |-> st, aio |-> Addrs(Get(f, "aio_battery_module_addresses", "-")), mods |-> Addrs(Get(f, "hv_bmu_addresses", "-")),
              meters |-> Addrs(Get(f, "meter_addresses", "meter_slaves")), packs |-> Addrs(Get(f, "lv_battery_addresses", "lv_battery_slaves")),
              bcu |-> IF Absent(page) THEN -1 ELSE Addr(page)]
    IN IF ~Absent(ver) /\ ~(ver.t = "int" /\ ver.v = 1) THEN [model |-> "reject"]
       ELSE IF c.model = "unknown" \/ c.fw = Bad \/ c.inv = Bad \/ c.bcu = Bad \/ (\E i \in DOMAIN st : Lacks(st[i]))
               \/ Lacks(c.aio) \/ Lacks(c.mods) \/ Lacks(c.meters) \/ Lacks(c.packs) THEN [model |-> "reject"]
       ELSE c
(* ---- and how it is saved ---- *)
Save(c) == [version |-> 1, device |-> c.model, inv |-> c.inv, meters |-> c.meters, packs |-> c.packs, stacks |-> c.stacks, aio |-> c.aio, mods |-> c.mods,
            bcu |-> c.bcu, fw |-> c.fw]
=============================================================================
