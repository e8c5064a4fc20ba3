------------------------------- MODULE Writes -------------------------------
(***************************************************************************)
(* What may be written to which plant, and through which entry point.        *)
(* A write is [reg, val, inst]; model "none" means: nothing detected yet.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
T == INSTANCE Topology
W == INSTANCE Wire

Pairs(base, n) == {base + 3 * k : k \in 0..n - 1} \union {base + 1 + 3 * k : k \in 0..n - 1}
Clock == 35..40
Slots1 == {94, 95, 31, 32, 56, 57, 44, 45}
Slots3to10 == Pairs(246, 8) \union Pairs(276, 8)
SinglePhase == {20, 27, 29, 50, 59, 96, 110, 111, 112, 114, 116, 163, 166} \union Clock \union Slots1 \union Slots3to10
ThreePhase == {20, 27, 29, 50, 59, 111, 112, 114, 163, 166, 1078, 1109, 1111, 1112, 1122, 1123} \union Clock \union Slots3to10
              \union 1113..1116 \union 1118..1121
Ems == {2040} \union 2044..2071
AcBlock == {311, 313, 314, 317}

\* what the detected plant takes from a user
ModelSafe(model) ==
    IF model \in T!Ems THEN Ems
    ELSE IF model \in T!ThreePhase THEN ThreePhase
    ELSE SinglePhase \union (IF model \in T!AcConfig THEN AcBlock ELSE {})

Permitted(model, entry, w) ==
    /\ w.val \in 0..65535
    /\ IF w.inst THEN entry = "installer" /\ w.reg \in W!Installer
       ELSE w.reg \in ModelSafe(model) /\ w.reg \in W!WriteSafe
Accepted(model, entry, cmd) == \A i \in DOMAIN cmd : Permitted(model, entry, cmd[i])
\* what a command puts on the wire
Sent(model, entry, dry, cmd) == IF Accepted(model, entry, cmd) /\ ~dry THEN [i \in DOMAIN cmd |-> <<cmd[i].reg, cmd[i].val>>] ELSE <<>>
=============================================================================
