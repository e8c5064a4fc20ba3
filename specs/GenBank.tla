------------------------------- MODULE GenBank -------------------------------
EXTENDS MC_Bank
VARIABLES xs
GInit == Init /\ xs = <<>>
GNext == /\ n < MaxSteps
         /\ LET x == RandomElement(Letters)
                dt == <<30000, 30000, 30000, 300000, 300001>>[RandomElement(1..5)] IN
              /\ Do(x, dt)
              /\ xs' = Append(xs, [e |-> Letter(x), dt |-> dt])
              /\ (n' = MaxSteps => PrintT(<<"BEH", ToJson(xs')>>))
GSpec == GInit /\ [][GNext]_<<vars, xs>>
=============================================================================
