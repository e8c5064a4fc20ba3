---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Recorded client sessions checked against Session.  Times in µs.          *)
(* Trace: [gap, jitter, fb, ev]; see harness/session.py for the events.     *)
(* Between two events the specification may take its own steps (timers,     *)
(* frames dropped unsent, a stall declared a loss); it may not let their     *)
(* moment pass.                                                             *)
(***************************************************************************)
EXTENDS TraceLib
Tol == 5
VARIABLES tid, i, s
T == Traces[tid]
Gap == T.gap
Jit == T.jitter
S == INSTANCE Session WITH Gap <- Gap, Jitter <- Jit, DrainLimit <- 10000000, FrameBound <- T.fb, QueueMax <- 20
DrainLimit == 10000000
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = S!Init0
E == T.ev[i + 1]
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Min2(a, b) == IF a < b THEN a ELSE b

(* ---- the specification's own steps at or before event e ------------------- *)
Timers(e) == {id \in S!InPhase(s, {"await", "delay"}) : s.req[id].due <= e.t + Tol}
Timer(e) == \E id \in Timers(e) :
    /\ \A o \in Timers(e) : s.req[id].due <= s.req[o].due
    /\ s' = IF s.req[id].phase = "await" THEN S!Expire(s, id, s.req[id].due) ELSE S!Requeue(s, id, s.req[id].due)
SkipOk(e) == S!CanSkip(s, e.t + Tol)
Skip(e) == SkipOk(e) /\ s' = S!Skip(s, Min2(e.t, S!SendBy(s)))
\* a frame whose caller left may be dropped
DropOk == s.conn = "up" /\ s.queue # <<>> /\ Head(s.queue).id # 0 /\ s.req[Head(s.queue).id].phase = "gone"
Drop == DropOk /\ s' = [s EXCEPT !.queue = Tail(@)]
Waiting == {s.queue[q] : q \in 1..Len(s.queue)} \union {s.write[q] : q \in 1..Len(s.write)}
StallOutOk(e) == /\ s.write # <<>> /\ s.conn = "up"
                 /\ \/ e.t >= s.since + DrainLimit - Tol
                    \/ \E f \in Waiting : f.id # 0 /\ e.t >= f.enq + T.fb - Tol
StallOut(e) == StallOutOk(e) /\ s' = S!Lose(s, Min2(e.t, s.since + DrainLimit))

(* ---- nothing may be left behind -------------------------------------------- *)
LateEnd(e) == {p \in RangeOf(s.ended) : p.t < e.t - Tol}
LateTimer(e) == {id \in S!InPhase(s, {"await", "delay"}) : s.req[id].due < e.t - Tol}
LateHead(e) == s.conn = "up" /\ s.write = <<>> /\ s.queue # <<>> /\ S!SendBy(s) < e.t - Tol
LateStall(e) == s.conn = "up" /\ s.write # <<>> /\ s.since + DrainLimit < e.t - Tol
OnTime(e) == LateEnd(e) = {} /\ LateTimer(e) = {} /\ ~LateHead(e) /\ ~LateStall(e)

(* ---- consuming an event ---------------------------------------------------- *)
Known(id) == id \in DOMAIN s.req
Matches(e) == {q \in 1..Len(s.ended) : LET p == s.ended[q] IN
                 /\ p.id = e.id /\ p.out = e.out /\ Near(p.t, e.t)
                 /\ (p.out = "ok" => (p.rid \in RangeOf(e.rids) /\ e.plant))}
Superseded(id) == s.req[id].shape \in DOMAIN s.reg /\ s.reg[s.req[id].shape][1] # id
Early(e) ==      \* ends the specification allows before their last moment
    /\ Known(e.id)
    /\ LET r == s.req[e.id] IN
       \/ r.phase = "orphan" /\ e.out # "ok"
       \/ r.phase = "delay" /\ e.out = "lost" /\ (s.lost \/ s.conn # "up" \/ s.epoch # r.epoch)
       \/ r.phase = "delay" /\ e.out = "cancelled" /\ Superseded(e.id)
       \/ r.phase = "queued" /\ e.out = "cancelled" /\ s.fut[S!Cur(s, e.id)] = "dead"
       \/ r.phase = "gone" /\ e.out = "cancelled"
\* requests abandoned by close() may still count the retry they would have made
RetryOk(e) == \A d \in DOMAIN s.retry \union {x.dev : x \in RangeOf(e.retry)} :
    LET n == IF \E x \in RangeOf(e.retry) : x.dev = d THEN (CHOOSE x \in RangeOf(e.retry) : x.dev = d).n ELSE 0
        w == IF d \in DOMAIN s.retry THEN s.retry[d] ELSE 0
    IN n >= w /\ n <= w + Cardinality({id \in DOMAIN s.req : s.req[id].dev = d /\ ~s.req[id].probe /\ s.req[id].phase \in {"orphan", "left"}})
CanTake(e) ==
    OnTime(e) /\
    CASE e.k = "tx" -> S!CanSend(s, e.t + Tol) /\ e.link = s.epoch /\ Head(s.queue).frame = e.frame
      [] e.k = "done" -> Matches(e) # {} \/ Early(e)
      [] e.k = "flag" -> e.up = (s.conn = "up")
      [] e.k = "end" -> /\ s.ended = <<>> /\ S!InPhase(s, {"queued", "await", "delay"}) = {}
                        /\ RetryOk(e)
      [] e.k = "exc" -> FALSE
      [] OTHER -> TRUE
Take(e) ==
    CASE e.k = "tx" -> S!Send(s, e.t)
      [] e.k = "done" -> IF Matches(e) # {}
                         THEN LET q == CHOOSE x \in Matches(e) : TRUE
                              IN [s EXCEPT !.ended = SubSeq(@, 1, q - 1) \o SubSeq(@, q + 1, Len(@))]
                         ELSE [s EXCEPT !.req[e.id].phase = IF @ = "orphan" THEN "left" ELSE "ended"]
      [] e.k = "call" -> S!Call(s, e.id, e.r, e.t)
      [] e.k = "cancel" -> IF s.req[e.id].phase \in {"queued", "await", "delay"} THEN S!CancelCall(s, e.id, e.t) ELSE s
      [] e.k = "rx" -> S!Receive(s, e.m, e.t)
      [] e.k \in {"eof", "reset"} -> S!Lose(s, e.t)
      [] e.k = "stall" -> [s EXCEPT !.stalled = s.conn = "up"]
      [] e.k = "resume" -> S!Resume(s, e.t)
      [] e.k = "close" -> S!Close(s, e.t)
      [] e.k = "connect" -> S!Connect(s, e.t)
      [] OTHER -> s

(* ---- which property a mismatch breaks -------------------------------------- *)
Owner(fr) == {id \in DOMAIN s.req : s.req[id].frame = fr}
ByOut(o) == CASE o = "ok" -> {"C01:ok", "C02:ok"} [] o = "timeout" -> {"C02:timeout"} [] o = "lost" -> {"C03:lost"} [] OTHER -> {"C01:cancelled", "C05:cancelled"}
New == IF s.epoch > 1 THEN {"C05:after-reconnect"} ELSE {}
Clause(e) ==
    IF LateEnd(e) # {} THEN UNION {ByOut(p.out) : p \in LateEnd(e)} \union New
    ELSE IF LateTimer(e) # {} THEN {"C02:timer"}
    ELSE IF LateStall(e) THEN {"C03:stall"}
    ELSE IF LateHead(e) THEN {"C04:unsent"} \union New \union (IF Head(s.queue).att > 1 THEN {"C02:unsent-retry"} ELSE {})
                             \union (IF S!CanSkip(s, e.t) THEN {"C02:skip"} ELSE {})
    ELSE CASE e.k = "tx" -> (IF s.conn # "up" \/ e.link # s.epoch THEN {"C05:sent", "C03:sent", "C04:sent-nowhere"}
                             ELSE IF s.queue = <<>> \/ Head(s.queue).frame # e.frame
                                  THEN {"C04:frame"} \union New
                                       \union (IF Owner(e.frame) # {} THEN {"C02:transmission"} ELSE {})
                             ELSE {"C04:early"} \union (IF Head(s.queue).att > 1 THEN {"C02:early"} ELSE {}))
           [] e.k = "done" -> ByOut(e.out) \union New
                              \union (IF s.lost \/ s.conn # "up" THEN {"C03:after-loss", "C05:after-close"} ELSE {})
                              \union (IF e.out = "other" THEN {"C02:raised", "C03:raised"} ELSE {})
                              \union (IF e.out = "ok" /\ e.hurt THEN {"F04:answered"} ELSE {})
           [] e.k = "flag" -> {"C03:flag", "C05:flag"}
           [] e.k = "exc" -> {"C05:raised"}
           [] e.k = "end" -> IF s.ended = <<>> /\ S!InPhase(s, {"queued", "await", "delay"}) = {} THEN {"C02:retry-count"} ELSE {"C03:stranded", "C02:stranded"}
           [] OTHER -> {"C05:" \o e.k}

Next ==
    /\ i < Len(T.ev)
    /\ LET e == E
       IN \/ (Timer(e) \/ Skip(e) \/ Drop \/ StallOut(e)) /\ UNCHANGED <<tid, i>>
          \/ /\ CanTake(e) /\ s' = Take(e) /\ i' = i + 1 /\ UNCHANGED tid
             /\ (i' = Len(T.ev) => Accept(tid))
          \/ /\ ~CanTake(e) /\ Timers(e) = {} /\ ~SkipOk(e) /\ ~DropOk /\ ~StallOutOk(e)
             /\ Reject(tid, i + 1, Clause(e), [q |-> s.queue, ended |-> s.ended, req |-> {<<id, s.req[id].phase, s.req[id].due>> : id \in DOMAIN s.req}, conn |-> s.conn, ready |-> s.ready])
             /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, s>>
=============================================================================
