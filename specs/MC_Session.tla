----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Every interleaving of a few requests, responses, heartbeats, timeouts,   *)
(* losses, closes and reconnects at unit time scale.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Reqs,          \* id -> [shape, frame, dev, timeout, retries, delay, probe]
          MaxTime, MaxRx, MaxFault, GapC, JitC, Faults
S == INSTANCE Session WITH Gap <- GapC, Jitter <- JitC, DrainLimit <- 3, FrameBound <- 99, QueueMax <- 20

VARIABLES s, now, nrx, nf, log, rxlog, hbs
vars == <<s, now, nrx, nf, log, rxlog, hbs>>
Init == s = S!Connect(S!Init0, 0) /\ now = 0 /\ nrx = 0 /\ nf = 0 /\ log = <<>> /\ rxlog = <<>> /\ hbs = 0

R(sh, to, re, de, pr) == [val |-> "", shape |-> sh, frame |-> sh, dev |-> 17, timeout |-> to, retries |-> re, delay |-> de, probe |-> pr]
ReqsA == [i \in 1..2 |-> IF i = 1 THEN R("a", 2, 1, 1, FALSE) ELSE R("a", 2, 0, 0, FALSE)]
ReqsB == [i \in 1..2 |-> IF i = 1 THEN R("a", 2, 1, 0, FALSE) ELSE R("b", 1, 1, 1, TRUE)]
ReqsC == [i \in 1..3 |-> CASE i = 1 -> R("a", 1, 1, 0, FALSE) [] i = 2 -> R("b", 1, 0, 0, FALSE) [] OTHER -> R("a", 1, 0, 0, FALSE)]
Shapes == {Reqs[i].shape : i \in DOMAIN Reqs}
CallA(id) == id \notin DOMAIN s.req /\ s' = S!Call(s, id, Reqs[id], now) /\ UNCHANGED <<now, nrx, nf, log, rxlog, hbs>>
Kinds == {"ok", "err", "bad", "other"}
RxA(sh, k) ==
    /\ nrx < MaxRx /\ nrx' = nrx + 1 /\ s.conn = "up"
    /\ LET m == [kind |-> IF k = "other" THEN "null" ELSE "resp", shape |-> sh, err |-> k = "err", bad |-> k = "bad", rid |-> nrx', frame |-> "", type |-> 0, val |-> ""]
       IN s' = S!Receive(s, m, now) /\ rxlog' = Append(rxlog, [m |-> m, t |-> now, calls |-> DOMAIN s.req])
    /\ UNCHANGED <<now, nf, log, hbs>>
HbA == /\ nrx < MaxRx /\ nrx' = nrx + 1 /\ s.conn = "up"
       /\ s' = S!Receive(s, [kind |-> "hb", shape |-> "", err |-> FALSE, bad |-> FALSE, rid |-> nrx', frame |-> "hb", type |-> 0, val |-> ""], now)
       /\ hbs' = hbs + 1 /\ UNCHANGED <<now, nf, log, rxlog>>
Send == /\ S!CanSend(s, now)
        /\ log' = Append(log, [f |-> Head(s.queue), t |-> now, epoch |-> s.epoch])
        /\ s' = S!Send(s, now) /\ UNCHANGED <<now, nrx, nf, rxlog, hbs>>
Skip == S!CanSkip(s, now) /\ s' = S!Skip(s, now) /\ UNCHANGED <<now, nrx, nf, log, rxlog, hbs>>
Timer == \E id \in S!InPhase(s, {"await", "delay"}) :
            /\ s.req[id].due = now
            /\ s' = IF s.req[id].phase = "await" THEN S!Expire(s, id, now) ELSE S!Requeue(s, id, now)
            /\ UNCHANGED <<now, nrx, nf, log, rxlog, hbs>>
FaultA(f, id) ==
    /\ nf < MaxFault /\ nf' = nf + 1 /\ f \in Faults
    /\ CASE f = "lose" -> s.conn = "up" /\ s' = S!Lose(s, now)
         [] f = "close" -> s' = S!Close(s, now)
         [] f = "connect" -> s' = S!Connect(S!Close(s, now), now)
         [] f = "stall" -> s.conn = "up" /\ s' = IF s.stalled THEN S!Resume(s, now) ELSE [s EXCEPT !.stalled = TRUE]
         [] OTHER -> id \in S!InPhase(s, {"queued", "await", "delay"}) /\ s' = S!CancelCall(s, id, now)
    /\ (f # "cancel" => id = CHOOSE x \in DOMAIN Reqs : TRUE)
    /\ UNCHANGED <<now, nrx, log, rxlog, hbs>>
Call == \E id \in DOMAIN Reqs : CallA(id)
Rx == \E sh \in Shapes, k \in Kinds : RxA(sh, k)
Fault == \E f \in Faults, id \in DOMAIN Reqs : FaultA(f, id)
DrainOut == /\ s.write # <<>> /\ now = s.since + 3 /\ s' = S!Lose(s, now) /\ UNCHANGED <<now, nrx, nf, log, rxlog, hbs>>
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ \A id \in S!InPhase(s, {"await", "delay"}) : s.req[id].due > now
        /\ ~S!CanSkip(s, now)
        /\ (s.conn = "up" /\ s.write = <<>> /\ s.queue # <<>>) => S!SendBy(s) > now
        /\ s.write # <<>> => now < s.since + 3
        /\ UNCHANGED <<s, nrx, nf, log, rxlog, hbs>>
Next == Call \/ Rx \/ HbA \/ Send \/ Skip \/ Timer \/ Fault \/ DrainOut \/ Tick
Spec == Init /\ [][Next]_vars

Outs(id) == {e \in {s.ended[i] : i \in 1..Len(s.ended)} : e.id = id}
Txs(id) == {i \in 1..Len(log) : log[i].f.id = id}
\* C01
OnlyOwnAnswer == \A i \in 1..Len(s.ended) : s.ended[i].out = "ok" =>
    LET r == rxlog[CHOOSE j \in 1..Len(rxlog) : rxlog[j].m.rid = s.ended[i].rid]
    IN r.m.kind = "resp" /\ r.m.shape = Reqs[s.ended[i].id].shape /\ ~r.m.err /\ ~r.m.bad /\ s.ended[i].id \in r.calls
OneEach == \A i, j \in 1..Len(s.ended) : (i # j /\ s.ended[i].out = "ok" /\ s.ended[j].out = "ok") => s.ended[i].rid # s.ended[j].rid
EndsOnce == \A i, j \in 1..Len(s.ended) : i # j => s.ended[i].id # s.ended[j].id
\* C02
Budget == \A id \in DOMAIN s.req : Cardinality(Txs(id)) <= 1 + Reqs[id].retries
Spaced == \A id \in DOMAIN s.req : \A i, j \in Txs(id) : i < j =>
             \/ log[j].t - log[i].t >= Reqs[id].timeout
             \/ \E r \in 1..Len(rxlog) : rxlog[r].m.err /\ rxlog[r].m.shape = Reqs[id].shape /\ rxlog[r].t >= log[i].t /\ rxlog[r].t <= log[j].t
TimeoutExhausted == \A i \in 1..Len(s.ended) : s.ended[i].out = "timeout" => s.req[s.ended[i].id].tries = 1 + Reqs[s.ended[i].id].retries
Silent == \A i \in 1..Len(s.ended) : \A j \in Txs(s.ended[i].id) : log[j].t <= s.ended[i].t
\* C03
Down == s.conn # "up" => /\ s.queue = <<>> /\ s.write = <<>>
                         /\ (s.lost => S!InPhase(s, {"queued", "await"}) = {})
\* C04
Rate == \A i \in 1..(Len(log) - 1) : log[i].epoch = log[i + 1].epoch => log[i + 1].t - log[i].t >= GapC
Fifo == \A i, j \in 1..Len(log) : (i < j /\ log[i].epoch = log[j].epoch) => log[i].f.enq <= log[j].f.enq
HbAnswered == Cardinality({i \in 1..Len(log) : log[i].f.id = 0}) <= hbs
HbExact == (nf = 0 /\ s.queue = <<>>) => Cardinality({i \in 1..Len(log) : log[i].f.id = 0}) = hbs
\* C05
NoSpill == \A i \in 1..Len(log) : log[i].f.id # 0 => s.req[log[i].f.id].epoch = log[i].epoch
=============================================================================
