------------------------------ MODULE MC_Writes ------------------------------
(***************************************************************************)
(* A command is examined one write at a time and put on the wire only when   *)
(* the last one has been found permitted.  Every plant, entry point, and      *)
(* command of up to three writes, each write one of a representative of every *)
(* class of register x marking x value.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen
X == INSTANCE Writes
Wi == INSTANCE Wire
T == INSTANCE Topology

Regs == {20, 96, 1112, 2040, 311, 318, 554, 63, 115, 162, 20000, 0, 65535}
Vals == {-1, 0, 65535, 65536}
Write == {w \in [reg : Regs, val : Vals, inst : BOOLEAN] : w.val \in {0} \/ w.reg \in {20, 63}}
VARIABLES model, entry, dry, cmd, at, sent, verdict
vars == <<model, entry, dry, cmd, at, sent, verdict>>
Init == /\ model \in T!Models \union {"none"} /\ entry \in {"normal", "installer"} /\ dry \in BOOLEAN
        /\ cmd = <<>> /\ at = 0 /\ sent = <<>> /\ verdict = "building"
Add == /\ verdict = "building" /\ Len(cmd) < MaxLen /\ \E w \in Write : cmd' = Append(cmd, w)
       /\ UNCHANGED <<model, entry, dry, at, sent, verdict>>
Begin == verdict = "building" /\ verdict' = "checking" /\ at' = 1 /\ UNCHANGED <<model, entry, dry, cmd, sent>>
Examine == /\ verdict = "checking" /\ at <= Len(cmd)
           /\ IF X!Permitted(model, entry, cmd[at]) THEN at' = at + 1 /\ verdict' = verdict ELSE at' = at /\ verdict' = "refused"
           /\ UNCHANGED <<model, entry, dry, cmd, sent>>
Pass == /\ verdict = "checking" /\ at > Len(cmd) /\ verdict' = (IF dry THEN "accepted" ELSE "sending") /\ at' = 1
        /\ UNCHANGED <<model, entry, dry, cmd, sent>>
Send == /\ verdict = "sending" /\ at <= Len(cmd) /\ sent' = Append(sent, <<cmd[at].reg, cmd[at].val>>) /\ at' = at + 1
        /\ UNCHANGED <<model, entry, dry, cmd, verdict>>
Done == verdict = "sending" /\ at > Len(cmd) /\ verdict' = "accepted" /\ UNCHANGED <<model, entry, dry, cmd, at, sent>>
Next == Add \/ Begin \/ Examine \/ Pass \/ Send \/ Done
Spec == Init /\ [][Next]_vars

AllOrNothing == sent # <<>> => \A i \in DOMAIN cmd : X!Permitted(model, entry, cmd[i])
RefusedSilent == verdict = "refused" => sent = <<>> /\ ~X!Accepted(model, entry, cmd)
DryIsSilent == dry => sent = <<>>
Exact == verdict \in {"accepted", "refused"} => sent = X!Sent(model, entry, dry, cmd)
TiersApart ==
    \A i \in DOMAIN cmd :
       /\ X!Permitted(model, "normal", cmd[i]) => ~cmd[i].inst /\ cmd[i].reg \notin Wi!Installer
       /\ (cmd[i].reg \in Wi!Installer /\ X!Permitted(model, "installer", cmd[i])) => cmd[i].inst
Conservative == model = "none" => \A i \in DOMAIN cmd : X!Permitted(model, "normal", cmd[i]) => cmd[i].reg < 300
SameVerdict == verdict = "accepted" => X!Accepted(model, entry, cmd)
\* facts about the tables themselves
Tables == at = 0 =>
    /\ \A m \in T!Models \union {"none"} : X!ModelSafe(m) \subseteq Wi!WriteSafe /\ X!ModelSafe(m) \intersect Wi!Installer = {}
    /\ \A m \in T!Models \ (T!AcConfig \union T!ThreePhase \union T!Ems) : X!ModelSafe(m) = X!ModelSafe("none")
=============================================================================
