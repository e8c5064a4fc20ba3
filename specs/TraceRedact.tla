----------------------------- MODULE TraceRedact -----------------------------
(***************************************************************************)
(* Recorded redactions and captures checked against Redact.  Event kinds:   *)
(*   cache  a register bank before/after one and two redactions             *)
(*   hdr    a plant header field before/after                               *)
(*   shown  a text the redacted plant shows somewhere                       *)
(*   same   something that must not have changed (judged equal or not)      *)
(*   start/rx/tx/up/stop  the life of a capture                             *)
(*   req    the outcome of a request with and without the capture           *)
(***************************************************************************)
EXTENDS TraceLib
R == INSTANCE Redact
VARIABLES tid, i, c
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ c = R!Idle

Step(e) == CASE e.k = "start" -> IF c.on THEN c ELSE R!Start(c)
             [] e.k = "rx" -> R!Rx(c, e.b)
             [] e.k = "tx" -> R!Tx(c, e.b)
             [] e.k = "up" -> IF c.on THEN R!Flush(c) ELSE c
             [] e.k = "stop" -> R!Stop(c)
             [] OTHER -> c
FirstDiff(a, b) == IF Len(a) # Len(b) THEN <<0, Len(a), Len(b)>>
                   ELSE LET D == {j \in 1..Len(a) : a[j] # b[j]} IN IF D = {} THEN <<>> ELSE LET j == CHOOSE x \in D : \A y \in D : x <= y IN <<j, a[j], b[j]>>
Tag(p, s) == p \o ":" \o s
Clause(e, n) ==
    CASE e.k = "cache" ->
            LET w == R!RedactBank(e.bank, e.ix, e.vs)
            IN IF e.rix # e.ix THEN "R01:registers" ELSE IF e.rvs # w THEN "R01:values"
               ELSE IF e.vs2 # w THEN "R01:twice" ELSE IF e.ovs # e.vs THEN "R01:original" ELSE ""
      [] e.k = "hdr" -> IF e.after # R!Strict(e.before) THEN "R01:header" ELSE IF e.twice # e.after THEN "R01:header twice" ELSE ""
      [] e.k = "shown" -> IF R!Reveals(e.b) THEN "R01:shown" ELSE ""
      [] e.k = "same" -> IF e.ok THEN "" ELSE Tag(e.p, e.what)
      [] e.k = "start" -> IF e.ok # ~c.on THEN "R02:concurrent capture" ELSE ""
      [] e.k = "stop" -> IF ~e.sink THEN "" ELSE IF FirstDiff(n.grx, e.rx) # <<>> THEN "R02:received bytes" ELSE IF FirstDiff(n.gtx, e.tx) # <<>> THEN "R02:sent bytes" ELSE ""
      [] e.k = "req" -> IF e.got # e.want THEN "R02:request disturbed" ELSE ""
      [] OTHER -> ""
Want(e, n) == CASE e.k = "stop" -> ToString(<<FirstDiff(n.grx, e.rx), FirstDiff(n.gtx, e.tx)>>)
                [] e.k = "cache" -> ToString(FirstDiff(R!RedactBank(e.bank, e.ix, e.vs), e.rvs))
                [] OTHER -> ""
Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               n == Step(e)
               bad == Clause(e, n)
           IN IF bad = "" THEN i' = i + 1 /\ c' = n /\ UNCHANGED tid /\ (i' = Len(T.ev) => Accept(tid))
              ELSE Reject(tid, i + 1, <<bad>>, Want(e, n)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, c>>
=============================================================================
