------------------------------ MODULE MC_Detect ------------------------------
(***************************************************************************)
(* The detection procedure, read by read, against every small plant: each   *)
(* request may be answered, go unanswered (within its budget when somebody  *)
(* is there) or die with the link.  What comes out must be what Detect says  *)
(* of the plant.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Hv
D == INSTANCE Detect

S == <<16967, 12850, 13110, 17457, 12593>>     \* BG2236D111
Z == <<0, 0, 0, 0, 0>>
Sp == <<8224, 8224, 8224, 8224, 8224>>
Fn(ds, w) == [d \in ds |-> w[d]]
\* every subset of the listed devices with a choice of identity for each
Lows == {<<code, a, b, m1, m8, pg>> : code \in {8193, 20481, 28673, 16641}, a \in {<<>>, Z, S}, b \in {<<>>, Sp, S}, m1 \in {<<>>, <<0>>, <<2300>>}, m8 \in {<<>>, <<5001>>},
          pg \in {<<>>, <<0, 0, 0, 0>>, <<0, 0, 1, 0>>}}
Highs == {<<code, n, s0, s1, a, b, c>> : code \in {33025, 32769, 16385}, n \in {-1, 0, 1, 2}, s0 \in {-1, 0, 2}, s1 \in {-1, 1}, a \in {<<>>, Z, S}, b \in {<<>>, S}, c \in {<<>>, S}}
There(pairs) == LET q == SelectSeq(pairs, LAMBDA x : x[2] # <<>>)
                    ds == {q[i][1] : i \in DOMAIN q}
                IN [d \in ds |-> (CHOOSE x \in {q[i] : i \in DOMAIN q} : x[1] = d)[2]]
One(n) == IF n < 0 THEN <<>> ELSE <<n>>
LowPlant(x) == There(<<<<17, <<x[1], 449>>>>, <<50, x[2]>>, <<52, x[3]>>, <<1, x[4]>>, <<8, x[5]>>, <<49, x[6]>>>>)
HighPlant(x) == There(<<<<17, <<x[1], 449>>>>, <<160, One(x[2])>>, <<112, One(x[3])>>, <<113, One(x[4])>>, <<80, x[5]>>, <<81, x[6]>>, <<82, x[7]>>, <<50, S>>>>)
Plants == IF Hv THEN {HighPlant(x) : x \in Highs} ELSE {LowPlant(x) : x \in Lows}
\* hints: what some other plants would have told, and a stranger
Hints == IF Hv THEN {D!Truth(HighPlant(x), D!NoPrior) : x \in {<<33025, 1, 2, -1, S, S, <<>>>>, <<33025, 2, 2, 1, S, S, S>>, <<32769, 1, 2, -1, S, S, <<>>>>, <<33025, 0, -1, -1, <<>>, <<>>, <<>>>>}}
               \union {[D!Truth(HighPlant(<<33025, 1, 2, -1, S, S, <<>>>>), D!NoPrior) EXCEPT !.mods = <<>>, !.fw = 7]}
         ELSE {D!Truth(LowPlant(x), D!NoPrior) : x \in {<<8193, S, S, <<2300>>, <<>>, <<0, 0, 1, 0>>>>, <<8193, S, <<>>, <<>>, <<>>, <<>>>>, <<28673, <<>>, <<>>, <<2300>>, <<>>, <<>>>>,
                                                         <<20481, <<>>, <<>>, <<2300>>, <<>>, <<>>>>}}
VARIABLES p, prior, got, asked, todo, stage, drops, lost, out, caps, kept, open
vars == <<p, prior, got, asked, todo, stage, drops, lost, out, caps, kept, open>>
Seen(g) == [d \in g |-> p[d]]
Budget(d) == IF d \in {17, 50} THEN 1 ELSE 1

(* the procedure: what the next stage asks, given what has answered *)
Stage(k, g) ==
    LET q == Seen(g)
        m == D!Model(p)
        hv == D!IsHv(m)
        st == IF hv THEN D!Stacks(q, prior) ELSE <<>>
        idx == D!StackIdx(q, prior)
    IN CASE k = 1 -> <<17>>
         [] k = 2 -> IF hv /\ prior = D!NoPrior THEN <<160>> ELSE <<>>
         [] k = 3 -> IF hv THEN [j \in DOMAIN idx |-> 112 + idx[j]] ELSE <<>>
         [] k = 4 -> IF D!IsAio(m) THEN D!AioCand(st, prior) ELSE IF hv THEN D!ModCand(st, prior) ELSE <<>>
         [] k = 5 -> D!MeterCand(prior)
         [] k = 6 -> IF D!Lv(m) THEN D!PackCand(prior) ELSE <<>>
         [] k = 7 -> IF D!Lv(m) /\ D!PageCand(prior) >= 0 THEN <<D!PageCand(prior)>> ELSE <<>>
         [] OTHER -> <<>>
Init == /\ p \in Plants /\ prior \in {D!NoPrior} \union Hints /\ got = {} /\ asked = {} /\ todo = <<17>> /\ stage = 1 /\ drops = 0 /\ lost = FALSE
        /\ out = "" /\ caps = D!NoPrior /\ kept = [model |-> "old"] /\ open = TRUE
Reply == /\ out = "" /\ todo # <<>> /\ Head(todo) \in DOMAIN p
         /\ got' = got \union {Head(todo)} /\ asked' = asked \union {Head(todo)} /\ todo' = Tail(todo) /\ drops' = 0
         /\ UNCHANGED <<p, prior, stage, lost, out, caps, kept, open>>
Drop == /\ out = "" /\ todo # <<>> /\ Head(todo) \in DOMAIN p /\ drops < Budget(Head(todo)) /\ drops' = drops + 1
        /\ UNCHANGED <<p, prior, got, asked, todo, stage, lost, out, caps, kept, open>>
Silence == /\ out = "" /\ todo # <<>> /\ Head(todo) \notin DOMAIN p
           /\ asked' = asked \union {Head(todo)} /\ todo' = Tail(todo) /\ drops' = 0
           /\ UNCHANGED <<p, prior, got, stage, lost, out, caps, kept, open>>
Die == /\ out = "" /\ todo # <<>> /\ lost' = TRUE /\ out' = "error" /\ open' = FALSE
       /\ UNCHANGED <<p, prior, got, asked, todo, stage, drops, caps, kept>>
Advance ==
    /\ out = "" /\ todo = <<>>
    /\ IF stage = 1 /\ prior # D!NoPrior /\ prior.model # D!Model(p)
       THEN out' = "mismatch" /\ kept' = D!NoPrior /\ UNCHANGED <<stage, todo, caps>>
       ELSE IF stage < 7 THEN stage' = stage + 1 /\ todo' = Stage(stage + 1, got) /\ UNCHANGED <<out, caps, kept>>
       ELSE LET c == D!Truth(Seen(got), prior) IN
            /\ caps' = c /\ UNCHANGED <<stage, todo>>
            /\ IF prior # D!NoPrior /\ ~D!Same(c, prior) THEN out' = "mismatch" /\ kept' = D!NoPrior ELSE out' = "caps" /\ kept' = c
    /\ UNCHANGED <<p, prior, got, asked, drops, lost, open>>
Next == Reply \/ Drop \/ Silence \/ Die \/ Advance
Spec == Init /\ [][Next]_vars

Right == out = "caps" => caps = D!Truth(p, prior) /\ kept = caps /\ open                                 \* D01
NoHalf == out \in {"", "error"} => kept = [model |-> "old"]                                              \* D03
LostIsNotAbsent == lost => out = "error" /\ ~open                                                        \* D03
ConfirmsExactly == out \in {"caps", "mismatch"} => out = D!Verdict(p, prior) /\ (out = "mismatch" => kept = D!NoPrior /\ open)     \* D02
AsksOnlyAllowed == prior # D!NoPrior => asked \subseteq D!Allowed(p, prior)                              \* D02
Gone == out = "caps" => D!Missing(p, prior) \subseteq (asked \ D!Listed(caps))
=============================================================================
