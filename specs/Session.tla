------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The client session: queueing, rate limiting, correlation, retries,       *)
(* connection loss, closing and reconnecting.  Time is an integer.          *)
(*                                                                         *)
(* s.conn   "none" | "up" | "down"; s.lost: a loss not yet followed by a     *)
(*          successful connect                                              *)
(* s.queue  frames waiting for the producer: [id, att, frame, enq]; id 0 is   *)
(*          a heartbeat response                                            *)
(* s.write  the frame whose write is stalled (<<>> if none)                  *)
(* s.reg    shape -> <<id, att>> last registered for a response              *)
(* s.fut    <<id, att>> -> "pend" | "ok" | "err" | "dead"; s.rid: what       *)
(*          resolved it                                                     *)
(* s.req    id -> request; phase: "queued" "await" "delay" "ended" "orphan"  *)
(*          "gone" (its caller left)                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Gap, Jitter, DrainLimit, FrameBound, QueueMax

Empty == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f
Init0 == [conn |-> "none", lost |-> FALSE, epoch |-> 0, stalled |-> FALSE, since |-> -1, queue |-> <<>>, write |-> <<>>,
          ready |-> 0, reg |-> Empty, fut |-> Empty, rid |-> Empty, req |-> Empty, retry |-> Empty, ended |-> <<>>]

End(s, id, out, rid, t) == [s EXCEPT !.req[id].phase = "ended", !.ended = Append(@, [id |-> id, out |-> out, rid |-> rid, t |-> t])]
Cur(s, id) == <<id, s.req[id].tries + 1>>
Ids(s) == DOMAIN s.req
InPhase(s, ps) == {id \in Ids(s) : s.req[id].phase \in ps}
RECURSIVE EndAll(_, _, _, _)
EndAll(s, ids, out, t) == IF ids = {} THEN s ELSE LET i == CHOOSE x \in ids : \A y \in ids : x <= y IN EndAll(End(s, i, out, 0, t), ids \ {i}, out, t)

(* ---- issuing and re-issuing ------------------------------------------------ *)
\* Put the next attempt of request id on the queue
Enqueue(s, id, t) ==
    LET k == Cur(s, id)
        f == [id |-> id, att |-> k[2], frame |-> s.req[id].frame, enq |-> t]
    IN [s EXCEPT !.reg = Put(@, s.req[id].shape, k), !.fut = Put(@, k, "pend"), !.queue = Append(@, f), !.req[id].phase = "queued"]

Call(s, id, r, t) ==
    LET new == r @@ [phase |-> "queued", tries |-> 0, due |-> 0, epoch |-> s.epoch]
        s0 == [s EXCEPT !.req = Put(@, id, new)]
        has == r.shape \in DOMAIN s.reg
        k == IF has THEN s.reg[r.shape] ELSE <<0, 0>>
        s1 == IF has /\ s.fut[k] = "pend"                    \* an older request of the same shape gives way
              THEN LET d == [s0 EXCEPT !.fut[k] = "dead"]
                   IN IF s.req[k[1]].phase = "await" THEN End(d, k[1], "cancelled", 0, t) ELSE d
              ELSE s0
    IN IF s.lost THEN End(s0, id, "lost", 0, t)
       ELSE IF s.conn # "up" THEN [s0 EXCEPT !.req[id].phase = "orphan"]
       ELSE Enqueue(s1, id, t)

Requeue(s, id, t) ==
    LET r == s.req[id]
        superseded == r.shape \in DOMAIN s.reg /\ s.reg[r.shape] # <<id, r.tries>>
    IN IF s.epoch # r.epoch \/ s.lost THEN End(s, id, "lost", 0, t)
       ELSE IF superseded THEN End(s, id, "cancelled", 0, t)
       ELSE IF s.conn # "up" THEN [s EXCEPT !.req[id].phase = "orphan"]
       ELSE Enqueue(s, id, t)

\* The current attempt got no usable answer
Failed(s, id, t) ==
    LET r == s.req[id]
        s1 == [s EXCEPT !.req[id].tries = @ + 1]
        s2 == IF r.probe THEN s1 ELSE [s1 EXCEPT !.retry = Put(@, r.dev, (IF r.dev \in DOMAIN @ THEN @[r.dev] ELSE 0) + 1)]
    IN IF r.tries + 1 > r.retries THEN End(s1, id, "timeout", 0, t)
       ELSE IF r.delay > 0 THEN [s2 EXCEPT !.req[id].phase = "delay", !.req[id].due = t + r.delay]
       ELSE Requeue(s2, id, t)

\* The awaited future of the current attempt is settled
Settle(s, id, t) ==
    LET k == Cur(s, id)
    IN CASE s.fut[k] = "ok" -> End(s, id, "ok", s.rid[k], t)
         [] s.fut[k] = "err" -> Failed(s, id, t)
         [] OTHER -> End(s, id, "cancelled", 0, t)

\* The caller gave up
CancelCall(s, id, t) ==
    LET p == s.req[id].phase
        s1 == IF p = "await" THEN [s EXCEPT !.fut[Cur(s, id)] = "dead"] ELSE s
    IN [s1 EXCEPT !.req[id].phase = "gone"]

(* ---- the producer --------------------------------------------------------- *)
Skippable(s, f) == f.id # 0 /\ s.fut[<<f.id, f.att>>] # "pend"
\* Frames at the head whose outcome is already known are dropped without being sent
Skip(s, t) ==
    LET f == Head(s.queue)
        s1 == [s EXCEPT !.queue = Tail(@)]
    IN IF s.req[f.id].phase = "queued" /\ Cur(s, f.id) = <<f.id, f.att>> THEN Settle(s1, f.id, t) ELSE s1
CanSkip(s, t) == s.conn = "up" /\ s.write = <<>> /\ s.queue # <<>> /\ Skippable(s, Head(s.queue)) /\ t >= s.ready
CanSend(s, t) == s.conn = "up" /\ s.write = <<>> /\ s.queue # <<>> /\ ~Skippable(s, Head(s.queue)) /\ t >= s.ready
Sent(s, f, t) ==          \* the transport has taken the frame
    LET s1 == [s EXCEPT !.write = <<>>, !.since = -1, !.ready = t + Gap]
    IN IF f.id = 0 \/ s.req[f.id].phase # "queued" THEN s1
       ELSE IF s.fut[<<f.id, f.att>>] = "pend" THEN [s1 EXCEPT !.req[f.id].phase = "await", !.req[f.id].due = t + s.req[f.id].timeout]
       ELSE Settle(s1, f.id, t)
Send(s, t) ==
    LET f == Head(s.queue)
        s1 == [s EXCEPT !.queue = Tail(@)]
    IN IF s.stalled THEN [s1 EXCEPT !.write = <<f>>, !.since = t] ELSE Sent(s1, f, t)
Resume(s, t) == LET s1 == [s EXCEPT !.stalled = FALSE] IN IF s.write = <<>> THEN s1 ELSE Sent(s1, s.write[1], t)
\* Latest moment by which a waiting head frame must have gone out on a healthy connection
Max2(a, b) == IF a > b THEN a ELSE b
SendBy(s) == Max2(s.ready + Jitter, Head(s.queue).enq)

(* ---- receiving ------------------------------------------------------------ *)
\* m: [kind, shape, err, bad, rid, type, val]; val is the value a write acknowledgement echoes, "" otherwise.
\* The acknowledgement of another value cannot answer a write whose frame has not gone out yet.
Unsent(s, id) == \E q \in 1..Len(s.queue) : s.queue[q].id = id /\ s.queue[q].att = s.req[id].tries + 1
Stale(s, id, m) == ~m.err /\ m.val # s.req[id].val /\ Unsent(s, id)
Receive(s, m, t) ==
    IF s.conn # "up" THEN s
    ELSE IF m.kind = "hb" THEN [s EXCEPT !.queue = Append(@, [id |-> 0, att |-> 0, frame |-> m.frame, enq |-> t])]
    ELSE IF m.kind # "resp" \/ m.bad \/ m.shape \notin DOMAIN s.reg THEN s
    ELSE LET k == s.reg[m.shape]
         IN IF s.fut[k] # "pend" \/ Stale(s, k[1], m) THEN s
            ELSE LET s1 == [s EXCEPT !.fut[k] = IF m.err THEN "err" ELSE "ok", !.rid = Put(@, k, m.rid)]
                 IN IF s.req[k[1]].phase = "await" THEN Settle(s1, k[1], t) ELSE s1

(* ---- timers --------------------------------------------------------------- *)
Expire(s, id, t) == Failed([s EXCEPT !.fut[Cur(s, id)] = "dead"], id, t)

(* ---- the connection ------------------------------------------------------- *)
Gone(s) == [s EXCEPT !.queue = <<>>, !.write = <<>>, !.since = -1, !.reg = Empty, !.stalled = FALSE, !.conn = "down"]
Lose(s, t) == IF s.conn # "up" THEN s ELSE Gone([EndAll(s, InPhase(s, {"queued", "await"}), "lost", t) EXCEPT !.lost = TRUE])
\* Deliberate close: what was queued is cancelled, what awaits a response is on its own and can only fail
Beyond(s) == {s.queue[i].id : i \in (QueueMax + 1)..Len(s.queue)}
Close(s, t) ==
    IF s.conn # "up" THEN s
    ELSE LET q == InPhase(s, {"queued"}) \ Beyond(s)
             s1 == EndAll(s, q, "cancelled", t)
             o == InPhase(s1, {"await", "queued"})
         IN Gone([s1 EXCEPT !.req = [id \in DOMAIN @ |-> IF id \in o THEN [@[id] EXCEPT !.phase = "orphan"] ELSE @[id]]])
Connect(s, t) == [s EXCEPT !.conn = "up", !.lost = FALSE, !.epoch = @ + 1, !.ready = t, !.reg = Empty]

Due(s, id) == s.req[id].due
=============================================================================
