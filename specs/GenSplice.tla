------------------------------ MODULE GenSplice ------------------------------
(* Random behaviours of MC_Splice, printed for replay into the implementation. *)
EXTENDS MC_Splice
VARIABLES xs, dts
GInit == Init /\ xs = <<>> /\ dts = <<>>
GNext == /\ n < MaxSteps
         /\ LET x == RandomElement(Letters)
                dt == <<30000, 30000, 30000, 30000, 300000, 300001>>[RandomElement(1..6)] IN
              /\ Step(x, dt)
              /\ xs' = Append(xs, x) /\ dts' = Append(dts, dt)
              /\ (n' = MaxSteps => PrintT(<<"BEH", ToJson([x |-> xs', dt |-> dts', surge |-> SurgeOn])>>))
GSpec == GInit /\ [][GNext]_<<vars, xs, dts>>
=============================================================================
