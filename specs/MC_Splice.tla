------------------------------ MODULE MC_Splice ------------------------------
(***************************************************************************)
(* Exhaustive exploration of one pack over a pool of readings and gaps.    *)
(* MinPolls is lowered by the configuration; everything else is the real   *)
(* constant.                                                               *)
(***************************************************************************)
EXTENDS Splice, Json

CONSTANTS SurgeOn, MaxSteps, Letters

Base == [i \in 1..60 |->
           LET k == i - 1 IN
           CASE k \in Cells -> 3300
             [] k \in CellTemps \union {43, 44} -> 250
             [] k = 20 -> 52800
             [] k = 21 -> 300
             [] k = 23 -> 52700
             [] k \in {25, 27, 42} -> 16000
             [] k = 29 -> 9000
             [] k = 37 -> 16
             [] k = 38 -> 3005
             [] k = 40 -> 60
             [] k \in {45, 46} -> 500
             [] k = 50 -> 16968 [] k = 51 -> 12848 [] k = 52 -> 13365 [] k = 53 -> 18225 [] k = 54 -> 12851
             [] OTHER -> 0]
With(f, g) == [i \in 1..60 |-> IF (i - 1) \in DOMAIN g THEN g[i - 1] ELSE f[i]]

Reading(x) ==
    CASE x = "a" -> [off |-> 0, w |-> Base]
      [] x = "b" -> [off |-> 0, w |-> With(Base, 40 :> 62 @@ 0 :> 3350 @@ 23 :> 53000)]
      [] x = "j" -> [off |-> 0, w |-> With(Base, 40 :> 90)]                         \* one impossible jump
      [] x = "i" -> [off |-> 0, w |-> With(Base, 21 :> 900)]                        \* another one
      [] x = "k" -> [off |-> 0, w |-> With(Base, 40 :> 0 @@ 43 :> 0)]               \* two impossible jumps
      [] x = "c" -> [off |-> 0, w |-> With(Base, 38 :> 3010)]                       \* constant changed
      [] x = "d" -> [off |-> 0, w |-> With(Base, 38 :> 3010 @@ 40 :> 1 @@ 43 :> 0)] \* same, physics corrupt too
      [] x = "t" -> [off |-> 0, w |-> With(Base, 16 :> 0 @@ 17 :> 0)]               \* zeroed sensors
      [] x = "z" -> [off |-> 0, w |-> With(Base, [i \in Cells |-> 0])]              \* impossible
      [] x = "s" -> [off |-> 0, w |-> With(Base, 52 :> 13366)]                      \* another pack
      [] x = "n" -> [off |-> 0, w |-> With(Base, 52 :> 0)]                          \* no valid serial
      [] x = "o" -> [off |-> 0, w |-> [i \in 1..60 |-> 0]]                          \* all zero
      [] x = "u" -> [off |-> 0, w |-> With(Base, 0 :> 3900 @@ 1 :> 3900 @@ 23 :> 59000)] \* surge
      [] x = "v" -> [off |-> 0, w |-> With(Base, 0 :> 3950 @@ 1 :> 3980 @@ 23 :> 59500)] \* surge, drifting
      [] x = "w" -> [off |-> 0, w |-> With(Base, 0 :> 900 @@ 1 :> 900)]             \* surge outside range
      [] x = "p" -> [off |-> 16, w |-> <<0, 0, 250, 250>>]                          \* partial, zeroed sensors
      [] x = "q" -> [off |-> 0, w |-> <<3310, 3311, 3312>>]                         \* partial, healthy
HealMs == 60000
Cfg == [heal |-> HealMs, surge |-> IF SurgeOn THEN HealMs ELSE -1]
Gaps == {30000, 300001}

VARIABLES p, now, last, n
vars == <<p, now, last, n>>
NoLast == [x |-> "", t |-> Never]
Init == p = PackInit /\ now = 0 /\ last = [x |-> "", why |-> "", serve |-> FALSE, prev |-> NoLast] /\ n = 0

Step(x, dt) ==
    LET r == Reading(x)
        o == Offer(p, r.off, r.w, now + dt, Cfg)
    IN /\ p' = o.p
       /\ now' = now + dt
       /\ n' = n + 1
       /\ last' = [x |-> x, why |-> o.why, serve |-> o.serve,
                   \* the last full reading that got as far as the guard
                   prev |-> IF last.x # "" /\ last.why \notin {"all-zero", "impossible", "bad-serial", "partial", "partial-cohort"}
                            THEN [x |-> last.x, t |-> now] ELSE last.prev]
Next == n < MaxSteps /\ \E x \in Letters, dt \in Gaps : Step(x, dt)
Spec == Init /\ [][Next]_vars

Age(t) == IF t = Never THEN -1 ELSE IF now - t > StaleMs THEN StaleMs + 1 ELSE now - t
View == <<[p EXCEPT !.seen = Age(p.seen), !.pendAt = Age(p.pendAt), !.imAt = Age(p.imAt), !.rjAt = Age(p.rjAt),
                    !.rejected = 0, !.held = 0, !.cold = 0],
          last.x, last.why, last.prev.x, Age(last.prev.t)>>

(* ---- properties --------------------------------------------------------- *)
Known(q) == {i \in 0..59 : At(q.cache, i) # Missing}
W(x) == Reading(x).w
Full(x) == Len(W(x)) = 60

\* M02: a full reading is served whole or not at all, and nothing else ever changes what is served
WholeOrNothing ==
    [][ p'.cache = p.cache \/ (last'.serve /\ p'.cache = Serve(p, Reading(last'.x).off, W(last'.x)).cache) ]_vars
\* M02: what is served is never self-contradictory, never carries zeroed sensors, always has a valid serial
NothingRottenServed ==
    Known(p) = 0..59 => /\ ~Impossible(p.cache, 0..59)
                        /\ ~Cohort(p.cache, 0..59)
                        /\ SerialOk(p.cache)
\* M02: with nothing known, the first visible reading repeats, within the window, the previous one
ColdNeedsTwo ==
    [][ (Known(p) = {} /\ last'.serve /\ Full(last'.x))
        => /\ last'.prev.x # "" /\ Full(last'.prev.x)
           /\ now' - last'.prev.t <= StaleMs
           /\ Agree(W(last'.prev.x), W(last'.x), 0..59) ]_vars
Fresh == p.seen # Never /\ now' - p.seen <= StaleMs
\* M02: contradictions of the served reading are not served while polling continues
NoContradiction ==
    [][ (Known(p) = 0..59 /\ Fresh /\ last'.serve /\ Full(last'.x)) =>
        LET J == Jumps(p.cache, W(last'.x), 0..59)
            C == Changed(p.cache, W(last'.x), 0..59, Constants_Scalar) IN
        /\ Changed(p.cache, W(last'.x), 0..59, Constants_Serial) = {}
        /\ (C = {} /\ Cardinality(J) >= 2) => (SurgeOn /\ last'.why = "surge-healed" /\ p.rjN + 1 >= MinPolls)
        /\ (C = {} /\ Cardinality(J) = 1) =>
              \* the held value came back: the previous examined reading had the same jump
              (last'.prev.x # "" /\ Jumps(p.cache, W(last'.prev.x), 0..59) = J)
        /\ C # {} => (p.imN + 1 >= MinPolls /\ now' - p.imAt >= HealMs) ]_vars
\* M03: a second agreeing healthy reading makes a pack visible
ColdConverges ==
    [][ (/\ Known(p) = {} /\ Full(last'.x) /\ last'.why \notin {"all-zero", "impossible", "bad-serial"}
         /\ last'.prev.x # "" /\ Full(last'.prev.x) /\ now' - last'.prev.t <= StaleMs
         /\ Agree(W(last'.prev.x), W(last'.x), 0..59) /\ ~Cohort(W(last'.x), 0..59)) => last'.serve ]_vars
\* M03: after a silence, any sane reading of a served pack is served at once
GapAdopts ==
    [][ (/\ Known(p) = 0..59 /\ p.seen # Never /\ now' - p.seen > StaleMs /\ Full(last'.x)
         /\ last'.why \notin {"all-zero", "impossible", "bad-serial"} /\ ~Cohort(W(last'.x), 0..59)) => last'.serve ]_vars
\* M03: every reading is accounted for exactly once
Accounted ==
    [][ LET d == (p'.rejected - p.rejected) + (p'.held - p.held) + (p'.cold - p.cold) IN
        IF last'.serve \/ last'.why \in {"all-zero", "bad-serial"} THEN d = 0 ELSE d = 1 ]_vars
\* M03: from every reachable situation, insisting on a reading that is not a contradiction gets it served
RECURSIVE Insist(_, _, _, _)
Insist(q, x, t, k) == IF k = 0 THEN q ELSE Insist(Offer(q, 0, W(x), t, Cfg).p, x, t + 30000, k - 1)
Converges ==
    \A x \in Letters \intersect {"a", "b", "j", "c", "d"} :
      LET k == IF Known(p) = {} THEN 2
               ELSE IF Known(p) # 0..59 THEN 0
               ELSE IF Changed(p.cache, W(x), 0..59, Constants_Serial) # {} THEN 0
               ELSE IF Changed(p.cache, W(x), 0..59, Constants_Scalar) # {} THEN MinPolls + 1
               ELSE IF Jumps(p.cache, W(x), 0..59) = {} THEN 1
               ELSE IF Cardinality(Jumps(p.cache, W(x), 0..59)) = 1 THEN 2 ELSE 0
      IN k > 0 => Insist(p, x, now + 30000, k).cache = W(x)
SurgeConverges ==
    (SurgeOn /\ Known(p) = 0..59 /\ p.cache = Base) => Insist(p, "u", now + 30000, MinPolls + 1).cache = W("u")

(* ---- behaviour generator: printed at the end of each random walk --------- *)
GenVars == <<p, now, last, n>>
=============================================================================
