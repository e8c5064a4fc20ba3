----------------------------- MODULE GenSession -----------------------------
(* Random walks through MC_Session; what the environment did is printed so   *)
(* that the same schedule can be played against the real client.            *)
EXTENDS MC_Session, Json
VARIABLES hist
GInit == Init /\ hist = <<>>
H(x) == hist' = Append(hist, [t |-> now, a |-> x])
GNext == \/ \E id \in DOMAIN Reqs : CallA(id) /\ H([k |-> "call", id |-> id, sh |-> "", q |-> ""])
         \/ \E sh \in Shapes, k \in Kinds : RxA(sh, k) /\ H([k |-> "rx", id |-> 0, sh |-> sh, q |-> k])
         \/ HbA /\ H([k |-> "hb", id |-> 0, sh |-> "", q |-> ""])
         \/ \E f \in Faults, id \in DOMAIN Reqs : FaultA(f, id) /\ H([k |-> f, id |-> id, sh |-> "", q |-> ""])
         \/ (Send \/ Skip \/ Timer \/ DrainOut) /\ UNCHANGED hist
         \/ Tick /\ UNCHANGED hist /\ (now' = MaxTime => PrintT(<<"BEH", ToJson(hist)>>))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
ReqsG == [i \in 1..5 |-> CASE i = 1 -> R("a", 2, 2, 1, FALSE) [] i = 2 -> R("b", 2, 1, 0, FALSE) [] i = 3 -> R("a", 3, 0, 1, FALSE)
                            [] i = 4 -> R("w", 2, 1, 1, TRUE) [] OTHER -> R("b", 1, 3, 2, FALSE)]
=============================================================================
