-------------------------------- MODULE Poll --------------------------------
(***************************************************************************)
(* A poll: which blocks it asks for in a given plant, and what it tells its *)
(* caller once each of them was answered or given up.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
T == INSTANCE Topology

(* What a refresh leaves out.  present / stamp: functions over <<dev, kind, base, count>>;  maxage < 0: no limit *)
Key(b) == <<b[2], b[1], b[3], b[4]>>
Absent(b, present) == Key(b) \in DOMAIN present /\ ~present[Key(b)]
Fresh(b, stamp, now, maxage) == maxage >= 0 /\ Key(b) \in DOMAIN stamp /\ now - stamp[Key(b)] <= maxage
Refresh(c, present, stamp, now, maxage) ==
    {b \in T!LiveBlocks(c) : ~Absent(b, present) /\ ~Fresh(b, stamp, now, maxage)}
Config(c) == T!ConfigBlocks(c)

Outcome(asked, answered, cancelled) ==
    CASE cancelled -> "cancelled"
      [] answered = asked -> "ok"
      [] answered = {} -> "failed"
      [] OTHER -> "partial"
Failed(asked, answered) == asked \ answered
=============================================================================
