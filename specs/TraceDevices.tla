---------------------------- MODULE TraceDevices ----------------------------
(***************************************************************************)
(* Recorded device trees of real plants checked against Devices.             *)
(* Events: cells (identity registers whose stored words changed), caps,      *)
(*   env (the serial in message headers), direct (caches added from another  *)
(*   connection), tree (what the plant said its devices were).               *)
(***************************************************************************)
EXTENDS TraceLib
D == INSTANCE Devices

VARIABLES tid, i, s
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = [v |-> <<>>, c |-> D!NoCaps, env |-> <<>>, xs |-> <<>>]
Keyed(q) == {<<q[j].d, q[j].k, q[j].r>> : j \in DOMAIN q}
Cells(q, v) ==
    LET new == Keyed(q)
        at(k) == (CHOOSE j \in DOMAIN q : <<q[j].d, q[j].k, q[j].r>> = k)
    IN [k \in {x \in (DOMAIN v) \union new : x \notin new \/ q[at(x)].w >= 0} |-> IF k \in new THEN q[at(k)].w ELSE v[k]]
Want(e) == IF e.k = "tree" THEN [rows |-> D!Tree(s.v, s.c, s.xs, s.env), views |-> D!Views(s.v, s.c, s.xs)] ELSE s.c
\* rows a user may rely on whatever the model says
Shape(t) ==
    (IF \A j \in DOMAIN t : t[j].top <=> j = 1 THEN {} ELSE {"M05:not one root"})
    \union (IF \A j \in 2..Len(t) : \E n \in DOMAIN t : n # j /\ t[n].id = t[j].parent THEN {} ELSE {"M05:orphan"})
Clauses(e) ==
    IF e.k # "tree" THEN {}
    ELSE IF e.out # "ok" THEN {"M05:raised"}
    ELSE LET w == Want(e)
         IN (IF e.rows = w.rows THEN {}
             ELSE Shape(e.rows) \union (IF Len(e.rows) # Len(w.rows) THEN {"M05:other devices"} ELSE IF RangeOf(e.rows) = RangeOf(w.rows) THEN {"M05:order"} ELSE {"M05:row"}))
            \union (IF e.again THEN {} ELSE {"M05:unstable"})
            \union (IF e.views = w.views THEN {} ELSE {"M05:views"})
            \union (IF e.me = D!PlantSerial(s.v, s.c, s.env) THEN {} ELSE {"M05:serial"})
After(e) ==
    CASE e.k = "cells" -> [s EXCEPT !.v = Cells(e.cells, @)]
      [] e.k = "caps" -> [s EXCEPT !.c = e.caps]
      [] e.k = "env" -> [s EXCEPT !.env = e.s]
      [] e.k = "direct" -> [s EXCEPT !.xs = Append(@, Cells(e.cells, <<>>))]
      [] OTHER -> s
Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           c == Clauses(e)
       IN IF c = {}
          THEN /\ s' = After(e) /\ i' = i + 1 /\ UNCHANGED tid
               /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, Want(e)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, s>>
=============================================================================
