------------------------------- MODULE MC_Poll -------------------------------
(***************************************************************************)
(* Every model and firmware with a choice of peripherals, presence markers, *)
(* stamps and maximum ages; every order of answers, failures, loss of link  *)
(* and cancellation while the poll runs (for the small plants).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Small        \* TRUE: few blocks, all interleavings; FALSE: all plants, no running
P == INSTANCE Poll
T == INSTANCE Topology

Addrs == {<<>>, <<50>>, <<50, 51>>}
Caps0 == [model : T!Models, fw : {-1, 0, 302, 303, 449}, inv : {17}, packs : {<<>>, <<50, 52>>}, bcu : {-1, 49}, meters : {<<>>, <<1, 8>>},
          stacks : {<<>>, <<<<0, 2>>, <<1, 3>>>>}, aio : {<<>>, <<80, 81>>}, mods : {<<>>, <<83>>}]
CapsS == {c \in Caps0 : c.model \in {"HYBRID_GEN3", "EMS"} /\ c.fw \in {302, 303} /\ c.stacks = <<>> /\ c.aio = <<>> /\ c.mods = <<>> /\ c.bcu = -1}
VARIABLES caps, op, maxage, present, stamp, now, phase, asked, answered, given, lost, outcome, sent
vars == <<caps, op, maxage, present, stamp, now, phase, asked, answered, given, lost, outcome, sent>>
Pool(c) == T!LiveBlocks(c)
Init == /\ caps \in (IF Small THEN CapsS ELSE Caps0) /\ op \in {"config", "refresh"} /\ now = 100
        /\ maxage \in (IF Small THEN {-1, 30} ELSE {-1})
        /\ \E s1, s2 \in {0} \union (IF Small THEN {69, 70, 71} ELSE {}), a \in {"none", "gone"} :
              /\ stamp = IF s1 = 0 THEN <<>> ELSE [k \in {P!Key(b) : b \in Pool(caps)} |-> IF k[1] = 17 THEN s1 ELSE IF s2 = 0 THEN 1 ELSE s2]
              /\ present = IF a = "none" THEN <<>> ELSE [k \in {P!Key(b) : b \in {x \in Pool(caps) : x[2] # 17}} |-> k[1] = 1]
        /\ phase = "idle" /\ asked = {} /\ answered = {} /\ given = {} /\ lost = FALSE /\ outcome = "" /\ sent = {}
Start == /\ phase = "idle" /\ phase' = "run"
         /\ asked' = IF op = "config" THEN P!Config(caps) ELSE P!Refresh(caps, present, stamp, now, maxage)
         /\ UNCHANGED <<caps, op, maxage, present, stamp, now, answered, given, lost, outcome, sent>>
Left == asked \ (answered \union given)
SendA == /\ Small /\ phase = "run" /\ ~lost /\ \E b \in Left \ sent : sent' = sent \union {b}
         /\ UNCHANGED <<caps, op, maxage, present, stamp, now, phase, asked, answered, given, lost, outcome>>
AnswerA == /\ phase = "run" /\ ~lost /\ \E b \in Left \intersect sent : answered' = answered \union {b} /\ stamp' = (P!Key(b) :> now) @@ stamp
           /\ UNCHANGED <<caps, op, maxage, present, now, phase, asked, given, lost, outcome, sent>>
GiveUp == /\ phase = "run" /\ \E b \in Left \intersect sent : given' = given \union {b}
          /\ UNCHANGED <<caps, op, maxage, present, stamp, now, phase, asked, answered, lost, outcome, sent>>
Loss == /\ Small /\ phase = "run" /\ ~lost /\ lost' = TRUE /\ given' = asked \ answered
        /\ UNCHANGED <<caps, op, maxage, present, stamp, now, phase, asked, answered, outcome, sent>>
End == /\ phase = "run" /\ Left = {} /\ outcome' = P!Outcome(asked, answered, FALSE) /\ phase' = "done"
       /\ UNCHANGED <<caps, op, maxage, present, stamp, now, asked, answered, given, lost, sent>>
Cancel == /\ Small /\ phase = "run" /\ Left # {} /\ outcome' = P!Outcome(asked, answered, TRUE) /\ phase' = "done"
          /\ UNCHANGED <<caps, op, maxage, present, stamp, now, asked, answered, given, lost, sent>>
Next == Start \/ SendA \/ AnswerA \/ GiveUp \/ Loss \/ End \/ Cancel
Spec == Init /\ [][Next]_vars

(* ---- P01 ---- *)
Truthful == phase = "done" =>
    /\ outcome = "ok" <=> (answered = asked /\ given = {})
    /\ outcome = "partial" => answered # {} /\ given # {} /\ P!Failed(asked, answered) = given
    /\ outcome = "failed" => answered = {} /\ given = asked /\ asked # {}
    /\ outcome # "cancelled" => answered \union given = asked
NothingDropped == \A b \in answered : P!Key(b) \in DOMAIN stamp
(* ---- P02 ---- *)
Reads(b) == b[4] \in 1..60
Apart(S) == \A a, b \in S : a # b /\ a[1] = b[1] /\ a[2] = b[2] => a[3] + a[4] <= b[3] \/ b[3] + b[4] <= a[3]
WellFormed == /\ \A b \in T!ConfigBlocks(caps) \union T!LiveBlocks(caps) : Reads(b)
              /\ Apart(T!ConfigBlocks(caps) \union T!LiveBlocks(caps))
              /\ T!ConfigBlocks(caps) \intersect T!LiveBlocks(caps) = {}
NotExposed ==
    /\ caps.model \in T!Ems => \A b \in asked : b[2] = 17 => b \in {<<"HR", 17, 0, 60>>, <<"HR", 17, 2040, 36>>, <<"IR", 17, 2040, 55>>}
    /\ caps.model \notin T!ThreePhase => \A b \in asked : ~(b[3] \in 1000..1500)
    /\ caps.model \notin T!Gateway => \A b \in asked : ~(b[3] \in 1600..1900)
    /\ \A b \in asked : b = <<"HR", 17, 300, 60>> => caps.model \in T!AcConfig
    /\ \A b \in asked : b = <<"HR", 17, 240, 60>> => T!Extended(caps.model, caps.fw)
OnlyIdentityAlways == op = "config" /\ phase # "idle" => <<"HR", 17, 0, 60>> \in asked
NeverAbsent == op = "refresh" => \A b \in asked : ~P!Absent(b, present)
EverythingElse == (op = "refresh" /\ maxage < 0 /\ phase # "idle") => asked = {b \in T!LiveBlocks(caps) : ~P!Absent(b, present)}
SentOnlyAsked == sent \subseteq asked
=============================================================================
