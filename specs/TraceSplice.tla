----------------------------- MODULE TraceSplice -----------------------------
(***************************************************************************)
(* Recorded histories of battery-pack readings, checked against Splice.    *)
(* Trace: [heal, surge, ev: [dev, t, off, words, cache, rej, held, cold]]   *)
(* cache = words served for IR(60..119) after the event (-1: unknown).     *)
(***************************************************************************)
EXTENDS TraceLib
S == INSTANCE Splice

VARIABLES tid, i, s
T == Traces[tid]
Cfg == [heal |-> T.heal, surge |-> T.surge]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = [d \in {e.dev : e \in RangeOf(T.ev)} |-> S!PackInit]

Clause(o, e, before) ==
    CASE e.exc # "" -> "raised"
      [] e.cache # o.p.cache ->
           IF e.cache = before.cache THEN "withheld:" \o o.why
           ELSE IF o.serve THEN "served-other" ELSE "served:" \o o.why
      [] e.others # 0 -> "other-pack-touched"
      [] <<e.rej, e.held, e.cold>> # <<o.p.rejected, o.p.held, o.p.cold>> -> "counters"
      [] OTHER -> ""

Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           o == S!Offer(s[e.dev], e.off, e.words, e.t, Cfg)
           c == Clause(o, e, s[e.dev])
       IN IF c = ""
          THEN /\ s' = [s EXCEPT ![e.dev] = o.p]
               /\ i' = i + 1
               /\ UNCHANGED tid
               /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, o.why) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, s>>
=============================================================================
