------------------------------ MODULE TracePoll ------------------------------
(***************************************************************************)
(* Recorded polls of the real client checked against Poll, the plant's own   *)
(* state being followed with Bank.                                          *)
(* Events: caps / msg / absent / inval / conn, and for a poll                *)
(*   start (parts: op, maxage), then tx (a request on the wire), rx (a       *)
(*   response delivered), and end (what the callers were told).              *)
(***************************************************************************)
EXTENDS TraceLib
B == INSTANCE Bank
P == INSTANCE Poll

VARIABLES tid, i, s, caps, run
T == Traces[tid]
Cfg == [heal |-> 900000, surge |-> -1]
NoRun == [asked |-> <<>>, chain |-> FALSE, sent |-> B!Empty, ans |-> {}, retries |-> 0]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = B!Init0 /\ caps = [model |-> "none"] /\ run = NoRun

BankCaps(c) == IF c.model = "none" THEN B!NoCaps ELSE [has |-> TRUE, inv |-> c.inv, bcu |-> c.bcu, bmu |-> RangeOf(c.mods)]
Blk(x) == <<x.kind, x.dev, x.base, x.n>>
Asked(part, t) ==
    IF caps.model = "none" THEN {}
    ELSE IF part.op = "config" THEN P!Config(caps) ELSE P!Refresh(caps, s.present, s.stamp, t, part.maxage)

Ans(r, j) == r.asked[j] \intersect r.ans
\* the second part of refresh_plant runs only after a fully successful first
Ran(r, j) == ~r.chain \/ j = 1 \/ Ans(r, 1) = r.asked[1]
Due(r) == UNION {r.asked[j] : j \in {q \in DOMAIN r.asked : Ran(r, q)}}
Count(r, b) == IF b \in DOMAIN r.sent THEN r.sent[b] ELSE 0

TxClause(e) ==
    IF caps.model = "none" THEN {"P01:sent before detection", "P02:sent before detection"}
    ELSE IF Blk(e) \notin Due(run) THEN {"P02:asked for more"}
    ELSE IF Blk(e) \in run.ans \/ Count(run, Blk(e)) > run.retries THEN {"P02:asked again"} ELSE {}

PartClause(e, j) ==
    LET part == e.parts[j]
        asked == run.asked[j]
        want == IF caps.model = "none" THEN "undetected" ELSE IF ~Ran(run, j) THEN "skipped" ELSE P!Outcome(asked, Ans(run, j), part.cancelled)
        fails == [q \in DOMAIN part.failures |-> Blk(part.failures[q])]
    IN IF part.out # want THEN {"P01:" \o part.out \o " but " \o want}
       ELSE IF want \in {"ok", "partial"} /\ ~part.plant THEN {"P01:not the plant"}
       ELSE IF want \in {"partial", "failed"}
               /\ ~(RangeOf(fails) = P!Failed(asked, Ans(run, j)) /\ Len(fails) = Cardinality(P!Failed(asked, Ans(run, j)))) THEN {"P01:failures"}
       ELSE {}
EndClause(e) ==
    (IF e.whole /\ DOMAIN run.sent # Due(run) THEN {"P02:left out"} ELSE {})
    \union (UNION {PartClause(e, j) : j \in DOMAIN e.parts})
    \union (IF \A j \in DOMAIN e.have : LET h == e.have[j] IN
                  \A q \in DOMAIN h.w : h.w[q] = B!Val(B!CacheOf(s, h.dev), B!Key(h.kind, h.base + q - 1))
            THEN {} ELSE {"P01:data"})

Clauses(e) ==
    CASE e.k = "tx" -> TxClause(e)
      [] e.k = "junk" -> {"P02:something else was sent"}
      [] e.k = "end" -> EndClause(e)
      [] OTHER -> {}
After(e) ==
    CASE e.k = "rx" -> B!Receive(s, e.m, Cfg).s
      [] e.k = "absent" -> B!MarkAbsent(s, e.dev, e.kind, e.base, e.n)
      [] e.k = "inval" -> B!Invalidate(s, e.dev, e.kind, e.base, e.n)
      [] e.k = "caps" -> [s EXCEPT !.caps = BankCaps(e.c)]
      [] OTHER -> s
RunAfter(e) ==
    CASE e.k = "start" -> [NoRun EXCEPT !.asked = [j \in DOMAIN e.parts |-> Asked(e.parts[j], e.t)], !.chain = e.chain, !.retries = e.retries]
      [] e.k = "tx" -> [run EXCEPT !.sent = B!Put(@, Blk(e), 1 + Count(run, Blk(e)))]
      [] e.k = "rx" /\ e.good /\ Count(run, Blk(e)) > 0 -> [run EXCEPT !.ans = @ \union {Blk(e)}]
      [] e.k = "end" -> NoRun
      [] OTHER -> run
Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           c == Clauses(e)
       IN IF c = {}
          THEN /\ s' = After(e) /\ run' = RunAfter(e) /\ i' = i + 1 /\ UNCHANGED tid
               /\ caps' = IF e.k = "caps" THEN e.c ELSE caps
               /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, [asked |-> run.asked, ans |-> run.ans]) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, s, caps, run>>
=============================================================================
