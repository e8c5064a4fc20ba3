----------------------------- MODULE TraceDecode -----------------------------
(***************************************************************************)
(* Recorded readings checked against Decode.  Event kinds:                   *)
(*   model   a device model built from a cache: every attribute it read       *)
(*   layout  what a class says about its attributes' registers and precision   *)
(*   getter  the same through the class's register getter                     *)
(* raised: attributes whose reading raised; touched: was the cache changed.    *)
(***************************************************************************)
EXTENDS TraceLib
D == INSTANCE Decode
VARIABLES tid, i
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0
\* an enumeration member may be kept as such or as its value
Same(w, g) == CASE w.k = "e" -> (g.k = "e" /\ g.name = w.name) \/ (g.k = "n" /\ g = D!Whole(w.v))
                [] w.k = "oneof" -> g.k = "n" /\ g \in w.v
                [] w.k = "num" -> g.k \in {"n", "big"}
                [] OTHER -> g.k = w.k /\ g = w
SameList(w, g) == Len(w) = Len(g) /\ \A j \in DOMAIN w : w[j].serial = g[j].serial /\ \A f \in {"status", "power", "soc", "temp"} : Same(w[j][f], g[j][f])
Agrees(w, g) == IF w.k = "list" THEN (g.k = "list" /\ SameList(w.v, g.v)) \/ (w.v = <<>> /\ g.k = "txt" /\ g.v = <<>>) ELSE g.k # "list" /\ Same(w, g)
Norm(g) == IF g.k = "n" THEN [k |-> "n", s |-> g.s, w |-> g.w] ELSE g
Want(e) == IF e.k = "layout" THEN D!Layout(e.cls) ELSE IF e.k = "model" THEN D!View(e.cls, e.cache) ELSE D!Decoded(e.cls, e.cache)
Bad(e, want) == IF e.k = "layout" THEN {n \in DOMAIN want : n \notin DOMAIN e.vals \/ e.vals[n] # want[n]} ELSE {n \in DOMAIN want : n \notin DOMAIN e.vals \/ ~Agrees(want[n], Norm(e.vals[n]))}
Clause(e, want) == IF e.raised # <<>> THEN "X02:raised" ELSE IF e.touched THEN "X02:cache changed" ELSE IF Bad(e, want) # {} THEN "X02:reading" ELSE ""
Show(e, want) == IF e.raised # <<>> THEN ToString(e.raised) ELSE ToString([n \in Bad(e, want) |-> <<want[n], IF n \in DOMAIN e.vals THEN e.vals[n] ELSE "no such attribute">>])
Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               want == Want(e)
               bad == Clause(e, want)
           IN IF bad = "" THEN i' = i + 1 /\ UNCHANGED tid /\ (i' = Len(T.ev) => Accept(tid))
              ELSE Reject(tid, i + 1, <<bad>>, Show(e, want)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i>>
=============================================================================
