------------------------------ MODULE TraceBank ------------------------------
(***************************************************************************)
(* Recorded plant histories checked against Bank.                           *)
(* Trace: [heal, surge, keys, ev]; an event is a message (k, dev, base, w,  *)
(* err, bad, inv, ada, ts), or absent / inval / caps; o holds what the plant *)
(* showed afterwards at time now.                                           *)
(***************************************************************************)
EXTENDS TraceLib
B == INSTANCE Bank

VARIABLES tid, i, s
T == Traces[tid]
Cfg == [heal |-> T.heal, surge |-> T.surge]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = B!Init0

Apply(e) ==
    CASE e.k = "absent" -> B!Out(B!MarkAbsent(s, e.dev, e.kind, e.base, e.n), TRUE, "absent")
      [] e.k = "inval" -> B!Out(B!Invalidate(s, e.dev, e.kind, e.base, e.n), TRUE, "inval")
      [] e.k = "caps" -> B!Out([s EXCEPT !.caps = [has |-> e.has, inv |-> e.inv, bcu |-> e.bcu, bmu |-> RangeOf(e.bmu)]], TRUE, "caps")
      [] OTHER -> B!Receive(s, e, Cfg)

DiffDev(old, new, dev) ==
    LET a == B!CacheOf(old, dev)
        b == B!CacheOf(new, dev)
    IN {<<dev, x, B!Val(b, x)>> : x \in {y \in DOMAIN a \union DOMAIN b : B!Val(a, y) # B!Val(b, y)}}
Diff(old, new) == IF old.cache = new.cache THEN {} ELSE UNION {DiffDev(old, new, d) : d \in DOMAIN old.cache \union DOMAIN new.cache}

Msg(e) == e.k \in {"HR", "IR", "MR", "W", "other"}
Hurt(e) == (e.k \in {"HR", "IR", "MR"} /\ (e.err \/ e.bad)) \/ (e.k = "other" /\ e.null)
GuardWhy == {"partial-cohort", "partial", "cold-first", "cold-disagree", "cold-cohort", "cold-confirmed", "constant-healed",
             "constant-held", "surge-healed", "surge-held", "gap-cohort", "gap-adopt", "unseen-cohort", "serial-changed",
             "jumps", "clean", "step-confirmed", "step-held", "impossible"}
Whole(e) == {<<e.dev, B!Key(e.k, e.base + j - 1), e.w[j]>> : j \in {q \in 1..Len(e.w) : B!Val(B!CacheOf(s, e.dev), B!Key(e.k, e.base + q - 1)) # e.w[q]}}

CacheClause(e, r) ==
    LET d == {<<x[1], x[2], x[3]>> : x \in RangeOf(e.o.diff)}
        want == Diff(s, r.s)
    IN IF d = want THEN {}
       ELSE IF e.k \in {"absent", "inval", "caps"} THEN {"M04:registers"}
       ELSE IF e.k = "W" THEN {"W03:registers"}
       ELSE IF Hurt(e) THEN {"F04:registers", "M01:damaged-stored"}
       ELSE IF e.k = "other" THEN {"M01:not-a-register-response"}
       ELSE IF r.why \in GuardWhy /\ d \in {{}, Whole(e)} THEN {"M02:guard"}
       ELSE {"M01:" \o r.why}

Shown(k) == [age |-> k.age, un |-> k.un, pr |-> k.pr]
StampClause(e, r) ==
    LET bad == \/ \E k \in RangeOf(e.o.keys) :
                    Shown(k) # [age |-> B!Age(r.s, <<k.dev, k.kind, k.base, k.n>>, e.now),
                                un |-> B!Unchanged(r.s, <<k.dev, k.kind, k.base, k.n>>, e.now),
                                pr |-> B!Present(r.s, <<k.dev, k.kind, k.base, k.n>>)]
               \/ e.o.newest # B!NewestAge(r.s, e.now)
               \/ \E k \in RangeOf(e.o.regs) : k.age # B!RegisterAge(r.s, k.dev, k.kind, k.r, e.now)
    IN IF ~bad THEN {}
       ELSE IF Hurt(e) THEN {"F04:freshness", "M04:freshness"}
       ELSE IF r.why \in GuardWhy /\ ((e.o.diff = <<>>) # (Diff(s, r.s) = {})) THEN {"M02:guard"}
       ELSE {"M04:" \o r.why}

SerialClause(e, r) ==
    IF e.o.inv = r.s.invser /\ e.o.ada = r.s.adapter /\ e.o.isn = B!InverterSerial(r.s) THEN {}
    ELSE (IF Hurt(e) THEN {"F04:serial"} ELSE {}) \union {"M05:serial"}

CrcOk(e, r) == {<<d[1], d[2]>> : d \in RangeOf(e.o.crc)} = {<<d, r.s.crc[d]>> : d \in DOMAIN r.s.crc}

Clauses(e, r) ==
    IF e.exc # "" THEN (IF Hurt(e) THEN {"F04:raised"} ELSE IF e.k = "W" THEN {"W03:raised"} ELSE IF Msg(e) THEN {"M01:raised"} ELSE {"M04:raised"})
    ELSE CacheClause(e, r) \union StampClause(e, r) \union SerialClause(e, r)
         \union (IF CrcOk(e, r) THEN {} ELSE {"F04:count"})

Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           r == Apply(e)
           c == Clauses(e, r)
       IN IF c = {}
          THEN /\ s' = r.s /\ i' = i + 1 /\ UNCHANGED tid
               /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, r.why) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, s>>
=============================================================================
