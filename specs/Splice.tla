------------------------------- MODULE Splice -------------------------------
(***************************************************************************)
(* The battery-pack guard: which readings of a pack become visible.        *)
(*                                                                         *)
(* One record per pack.  A reading is a sequence of register words; a full *)
(* reading is the 60 words IR(60)..IR(119), word i (0-based) being         *)
(* IR(60+i).  Times are integer milliseconds.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Missing == -1
Never   == -1

Abs(x) == IF x < 0 THEN -x ELSE x
At(f, i) == f[i + 1]                        \* 0-based access

(* ---- what is physically possible between two consecutive readings ------ *)
Cells     == 0..15
CellTemps == 16..19
ScalarRules ==
    [i \in Cells |-> 300]                               \* cell voltage, mV
    @@ [i \in CellTemps \union {43, 44} |-> 50]         \* cell / max / min temperature, 0.1 C
    @@ (21 :> 200)                                      \* mosfet temperature
    @@ (20 :> 1600)                                     \* sum of cell voltages, mV
    @@ (40 :> 10)                                       \* state of charge, %
    @@ (45 :> 50) @@ (46 :> 50)                         \* lifetime energy, 0.1 kWh
PairRules ==                                            \* 32-bit quantities: high word |-> threshold
    (22 :> 4000) @@ (24 :> 1500) @@ (26 :> 1500) @@ (28 :> 1500) @@ (41 :> 1500)
Constants_Scalar == {37, 38}                            \* cell count, firmware version
Constants_Serial == 50..54                              \* serial number words

StaleMs  == 300000
MinPolls == 10 \* lowered in bounded configurations

\* Distance of two 32-bit quantities given as <<hi, lo>>, saturating (TLC integers are 32-bit)
PairDist(a, b) ==
    LET dh == a[1] - b[1] IN
    IF Abs(dh) >= 2 THEN 100000 ELSE Abs(dh * 65536 + (a[2] - b[2]))

\* The comparable value of the quantity whose first word is i
ValueOf(f, i) == IF i \in DOMAIN PairRules THEN <<At(f, i), At(f, i + 1)>> ELSE <<0, At(f, i)>>
LimitOf(i)    == IF i \in DOMAIN PairRules THEN PairRules[i] ELSE ScalarRules[i]
WordsOf(i)    == IF i \in DOMAIN PairRules THEN {i, i + 1} ELSE {i}
Quantities    == DOMAIN ScalarRules \union DOMAIN PairRules

\* The quantities that moved further than physics allows
Jumps(prev, new, present) ==
    {i \in Quantities : WordsOf(i) \subseteq present
                        /\ PairDist(ValueOf(prev, i), ValueOf(new, i)) > LimitOf(i)}
Changed(prev, new, present, consts) == {i \in consts : i \in present /\ At(prev, i) # At(new, i)}
Agree(a, b, present) ==
    /\ Jumps(a, b, present) = {}
    /\ Changed(a, b, present, Constants_Scalar \union Constants_Serial) = {}

\* Zeroed temperature sensors: the signature of a corrupted reading
Cohort(f, present) == Cardinality({i \in CellTemps : i \in present /\ At(f, i) = 0}) >= 2

\* Every cell at 0 V while the pack reports firmware or remaining capacity
Impossible(f, present) ==
    /\ Cells \subseteq present
    /\ \A i \in Cells : At(f, i) = 0
    /\ \E i \in {38, 28, 29} : i \in present /\ At(f, i) # 0

\* Absolute plausibility of a value that may be adopted by the (opt-in) surge heal
SurgeRange(i) ==
    CASE i \in Cells -> <<1000, 5000>>
      [] i = 20 -> <<16000, 80000>>
      [] i = 22 -> <<16000, 80000>>
      [] i \in {24, 26, 28, 41} -> <<0, 50000>>
      [] OTHER -> <<1, 0>>
InSurgeRange(i, v) ==
    /\ SurgeRange(i)[1] <= SurgeRange(i)[2]
    /\ v[1] \in {0, 1}
    /\ LET x == v[1] * 65536 + v[2] IN SurgeRange(i)[1] <= x /\ x <= SurgeRange(i)[2]

(* ---- identity ----------------------------------------------------------- *)
Bytes2(w) == <<w \div 256, w % 256>>
SerialBytes(f) == Bytes2(At(f,50)) \o Bytes2(At(f,51)) \o Bytes2(At(f,52)) \o Bytes2(At(f,53)) \o Bytes2(At(f,54))
IsAlnum(b) == b \in 48..57 \/ b \in 65..90 \/ b \in 97..122      \* lower case is folded to upper
SerialOk(f) == \A k \in 1..10 : IsAlnum(SerialBytes(f)[k])

(* ---- state ---------------------------------------------------------------- *)
NoFrame == <<>>
PackInit == [ cache  |-> [i \in 1..60 |-> Missing],  \* what is served
              seen   |-> Never,                      \* time of the last full reading observed
              pend   |-> NoFrame, pendAt |-> Never,  \* unconfirmed first reading
              escIx  |-> -1, escV |-> <<0, 0>>,      \* suspicious value held for one reading
              imSig  |-> {}, imAt |-> Never, imN |-> 0,      \* sustained change of a constant
              rjF    |-> NoFrame, rjAt |-> Never, rjN |-> 0, \* sustained surge
              rejected |-> 0, held |-> 0, cold |-> 0 ]

Reject(p) == [p EXCEPT !.rejected = @ + 1]
Hold(p)   == [p EXCEPT !.held = @ + 1]
NoEsc(p)  == [p EXCEPT !.escIx = -1, !.escV = <<0, 0>>]
NoIm(p)   == [p EXCEPT !.imSig = {}, !.imAt = Never, !.imN = 0]
NoRj(p)   == [p EXCEPT !.rjF = NoFrame, !.rjAt = Never, !.rjN = 0]
NoPend(p) == [p EXCEPT !.pend = NoFrame, !.pendAt = Never]

Out(p, serve, why) == [p |-> p, serve |-> serve, why |-> why]

\* First full reading(s): wait for a second one that agrees
ColdStart(p, f, inc, t) ==
    LET have == p.pend # NoFrame /\ t - p.pendAt <= StaleMs
        hold == [p EXCEPT !.pend = f, !.pendAt = t, !.cold = @ + 1]
    IN IF have /\ Agree(p.pend, f, inc)
       THEN IF Cohort(f, inc)
            THEN Out([p EXCEPT !.cold = @ + 1], FALSE, "cold-cohort")
            ELSE Out(NoPend(p), TRUE, "cold-confirmed")
       ELSE Out(hold, FALSE, IF have THEN "cold-disagree" ELSE "cold-first")

\* A constant changed: adopt only after long insistence on the same new value
ScalarChange(p0, f, inc, changed, t, healMs) ==
    LET p   == NoRj(p0)
        sig == {<<i, At(f, i)>> : i \in changed}
        same == p.imSig = sig
        n   == IF same THEN p.imN + 1 ELSE 1
        at  == IF same THEN p.imAt ELSE t
    IN IF same /\ n >= MinPolls /\ t - at >= healMs /\ ~Cohort(f, inc)
       THEN Out(NoEsc(NoIm(p)), TRUE, "constant-healed")
       ELSE Out(Hold(NoEsc([p EXCEPT !.imSig = sig, !.imAt = at, !.imN = n])), FALSE, "constant-held")

\* Several quantities surged, all within absolute plausibility (opt-in heal)
Surge(p0, f, present, t, surgeMs) ==
    LET p == NoEsc(NoIm(p0))
        smooth == p.rjF # NoFrame /\ Agree(p.rjF, f, present)
        n  == IF smooth THEN p.rjN + 1 ELSE 1
        at == IF smooth THEN p.rjAt ELSE t
    IN IF smooth /\ n >= MinPolls /\ t - at >= surgeMs
       THEN Out(NoRj(p), TRUE, "surge-healed")
       ELSE Out(Hold([p EXCEPT !.rjF = f, !.rjAt = at, !.rjN = n]), FALSE, "surge-held")

(***************************************************************************)
(* Guard: the reading `words` starting at 0-based word `off` of the pack's  *)
(* block arrives at time t (already known to carry a coherent serial).      *)
(* cfg = [heal |-> ms, surge |-> ms or -1 when disabled].                   *)
(***************************************************************************)
Guard(p0, off, words, t, cfg) ==
    LET inc  == off .. (off + Len(words) - 1)
        prev == [i \in 1..60 |-> IF p0.cache[i] = Missing THEN 0 ELSE p0.cache[i]]
        f    == [i \in 1..60 |-> IF (i - 1) \in inc THEN words[i - off] ELSE prev[i]]
        known == {i \in 0..59 : At(p0.cache, i) # Missing}
        present == inc \intersect known
        full == Len(words) >= 60
        p1   == [p0 EXCEPT !.seen = t]
        p2   == NoPend(p1)
        gap  == p0.seen # Never /\ t - p0.seen > StaleMs
        jumps == Jumps(prev, f, present)
        serial == Changed(prev, f, present, Constants_Serial)
        scalar == Changed(prev, f, present, Constants_Scalar)
    IN IF ~full THEN
            IF Cohort(f, inc) THEN Out(Reject(p0), FALSE, "partial-cohort") ELSE Out(p0, TRUE, "partial")
       ELSE IF present = {} THEN ColdStart(p1, f, inc, t)
       ELSE IF Impossible(prev, known) /\ ~Impossible(f, inc) THEN ColdStart(p1, f, inc, t)
       ELSE IF gap THEN
            IF Cohort(f, inc)
            THEN Out(Reject([p2 EXCEPT !.seen = p0.seen]), FALSE, "gap-cohort")
            ELSE Out(NoEsc(NoIm(NoRj(p2))), TRUE, "gap-adopt")
       ELSE IF Cohort(f, inc \ present) THEN Out(Reject(p2), FALSE, "unseen-cohort")
       ELSE IF serial # {} THEN Out(Reject(NoEsc(NoIm(NoRj(p2)))), FALSE, "serial-changed")
       ELSE IF Cardinality(jumps) >= 2 /\ scalar = {} THEN
            IF cfg.surge >= 0 /\ \A i \in jumps : InSurgeRange(i, ValueOf(f, i))
            THEN Surge(p2, f, present, t, cfg.surge)
            ELSE Out(Reject(NoEsc(NoIm(NoRj(p2)))), FALSE, "jumps")
       ELSE IF scalar # {} THEN ScalarChange(p2, f, inc, scalar, t, cfg.heal)
       ELSE LET p3 == NoIm(NoRj(p2)) IN
            IF jumps = {} THEN Out(NoEsc(p3), TRUE, "clean")
            ELSE LET i == CHOOSE i \in jumps : TRUE
                     v == ValueOf(f, i)
                 IN IF p3.escIx = i /\ PairDist(v, p3.escV) <= LimitOf(i)
                    THEN Out(NoEsc(p3), TRUE, "step-confirmed")
                    ELSE Out(Hold([p3 EXCEPT !.escIx = i, !.escV = v]), FALSE, "step-held")

Serve(p, off, words) ==
    [p EXCEPT !.cache = [i \in 1..60 |-> IF (i - 1) \in off..(off + Len(words) - 1) THEN words[i - off] ELSE p.cache[i]]]

(***************************************************************************)
(* Offer: what happens to a pack when a valid response carrying `words` at  *)
(* word offset `off` arrives.                                               *)
(***************************************************************************)
Offer(p, off, words, t, cfg) ==
    LET inc == off .. (off + Len(words) - 1)
        full == Len(words) >= 60
        merged == [i \in 1..60 |-> IF (i - 1) \in inc THEN words[i - off] ELSE p.cache[i]]
        serialSeen == inc \intersect Constants_Serial # {}
        serialKnown == \A i \in Constants_Serial : At(merged, i) # Missing
    IN IF /\ full
          /\ \A i \in 1..Len(words) : words[i] = 0
          /\ \E i \in inc : At(p.cache, i) > 0
       THEN Out(p, FALSE, "all-zero")
       ELSE IF full /\ Impossible(merged, inc) THEN Out(Reject(p), FALSE, "impossible")
       ELSE IF serialSeen /\ ~(serialKnown /\ SerialOk(merged)) THEN Out(p, FALSE, "bad-serial")
       ELSE LET g == Guard(p, off, words, t, cfg)
            IN IF g.serve THEN Out(Serve(g.p, off, words), TRUE, g.why) ELSE g
=============================================================================
