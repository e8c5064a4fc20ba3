------------------------------ MODULE Topology ------------------------------
(***************************************************************************)
(* What kinds of plant there are, what each exposes, and which register     *)
(* blocks a poll therefore asks for.  A block is <<kind, dev, base, count>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Models == {"HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE", "HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3", "POLAR",
           "AIO_COMMERCIAL", "EMS_COMMERCIAL", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID", "HYBRID_GEN4"}
HighVoltage == {"HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID"}
ThreePhase == {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"}
Ems == {"EMS", "EMS_COMMERCIAL"}
Gateway == {"GATEWAY"}
AcConfig == {"AC", "AC_3PH", "ALL_IN_ONE"}
\* fw = -1: not known
Extended(model, fw) == model \in {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3"} \/ (model = "HYBRID_GEN3" /\ fw > 302)

\* the kind of plant, from its device type code (HR 0) and firmware (HR 21); "unknown" if there is no such plant
ByPrefix == [x \in 0..255 |->
    CASE x = 33 -> "POLAR" [] x = 65 -> "AIO_COMMERCIAL" [] x = 81 -> "EMS_COMMERCIAL" [] x = 129 -> "HYBRID_HV_GEN3" [] x = 130 -> "ALL_IN_ONE_HYBRID"
      [] x = 131 -> "HYBRID_GEN4" [] x \div 16 = 2 -> "HYBRID" [] x \div 16 = 3 -> "AC" [] x \div 16 = 4 -> "HYBRID_3PH" [] x \div 16 = 5 -> "EMS"
      [] x \div 16 = 6 -> "AC_3PH" [] x \div 16 = 7 -> "GATEWAY" [] x \div 16 = 8 -> "ALL_IN_ONE" [] OTHER -> "unknown"]
ModelOf(code, fw) ==
    IF code \div 256 = 32 THEN CASE fw \div 100 = 3 -> "HYBRID_GEN3" [] fw \div 100 \in {8, 9} -> "HYBRID_GEN2" [] OTHER -> "HYBRID_GEN1"
    ELSE ByPrefix[code \div 256]
\* where its charge and discharge slots are kept
SlotLayout(model, fw) == IF model \in Ems THEN "ems" ELSE IF model \in ThreePhase THEN "three" ELSE IF Extended(model, fw) THEN "ext" ELSE "single"

RECURSIVE Windows(_, _)
Windows(a, b) == IF a >= b THEN <<>> ELSE <<<<a, IF b - a < 60 THEN b - a ELSE 60>>>> \o Windows(a + 60, b)
Sixty(kind, dev, a, b) == LET w == Windows(a, b) IN {<<kind, dev, w[i][1], w[i][2]>> : i \in DOMAIN w}
If(c, S) == IF c THEN S ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}

(* caps: [model, fw, inv, packs, bcu, meters, stacks, aio, mods] *)
ConfigBlocks(c) ==
    {<<"HR", c.inv, 0, 60>>}
    \union If(c.model \notin Ems, {<<"HR", c.inv, 60, 60>>, <<"HR", c.inv, 120, 60>>, <<"IR", c.inv, 120, 60>>})
    \union If(c.model \in ThreePhase, Sixty("HR", c.inv, 1000, 1125))
    \union If(Extended(c.model, c.fw), {<<"HR", c.inv, 240, 60>>})
    \union If(c.model \in AcConfig, {<<"HR", c.inv, 300, 60>>})
    \union If(c.model \in Ems, {<<"HR", c.inv, 2040, 36>>})

LiveBlocks(c) ==
    If(c.model \notin Ems, {<<"IR", c.inv, 0, 60>>, <<"IR", c.inv, 180, 60>>})
    \union If(c.model \in ThreePhase, Sixty("IR", c.inv, 1000, 1414))
    \union If(c.model \in Ems, {<<"IR", c.inv, 2040, 55>>})
    \union If(c.model \in Gateway, Sixty("IR", c.inv, 1600, 1860))
    \union {<<"IR", d, 60, 60>> : d \in Range(c.packs) \union Range(c.aio) \union Range(c.mods)}
    \union If(c.bcu >= 0, {<<"IR", c.bcu, 60, 60>>})
    \union {<<"IR", d, 60, 30>> : d \in Range(c.meters)}
    \union {<<"IR", 112 + x[1], 60, 60>> : x \in Range(c.stacks)}
=============================================================================
