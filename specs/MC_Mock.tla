------------------------------- MODULE MC_Mock -------------------------------
(***************************************************************************)
(* Mock checked on its own: a displayed sentinel leads back to its register; *)
(* telling devices apart is possible for every way serials can coincide, and *)
(* only if all of a colliding group are renamed; what a seed written down     *)
(* answers; the order of capture lines.                                       *)
(***************************************************************************)
EXTENDS Mock, TLC
CONSTANT Deep
VARIABLES what, x

Addrs == {0, 1, 9, 10, 99, 100, 242, 1000, 2420, 24200, 64535, 65535} \cup (IF Deep THEN 0..400 ELSE 0..40)
\* four devices of one kind; serials from a handful, of few letters so that renaming can collide
Serial(n) == CASE n = 0 -> <<0, 0, 0, 0, 0>> [] n = 1 -> <<16706, 12336, 12336, 0, 0>> [] n = 2 -> <<16706, 12336, 12337, 0, 0>>
               [] n = 3 -> <<16706, 12336, 12338, 0, 0>> [] n = 4 -> <<16640, 0, 0, 0, 0>> [] OTHER -> <<16706, 12336, 13362, 0, 0>>
Put5(s) == [k \in {65536 + 110 + j : j \in 0..4} |-> s[k - 65536 - 109]]
Packs == [50..53 -> 0..5]
Seeded(f) == [d \in DOMAIN f |-> Put5(Serial(f[d]))] @@ (17 :> (65536 :> 1))
Tail2(d) == (d \div 10) * 256 + (d % 10) + 12336        \* two digits
Rename(f, d) == LET s == Serial(f[d]) IN IF Len(Letters(s)) # 10 \/ s[3] = 0 THEN s ELSE <<s[1], s[2], Tail2(d), 0, 0>>
Renamed(f, who) == [d \in DOMAIN f |-> Put5(IF d \in who THEN Rename(f, d) ELSE Serial(f[d]))] @@ (17 :> (65536 :> 1))
Collide(f) == \E a, b \in DOMAIN f : a # b /\ f[a] = f[b] /\ f[a] # 0
TwoShort(f) == \E a, b \in DOMAIN f : a # b /\ f[a] = 4 /\ f[b] = 4

Reqs == {[Blank EXCEPT !.k = k, !.dev = d, !.a = a, !.b = b] : k \in {"qHR", "qIR", "qMR", "qW", "hbr", "err"}, d \in {17, 50, 51}, a \in {0, 1, 3, 65535}, b \in {1, 2, 3}}
SeedOf(h) == 17 :> ([r \in h |-> r % 7] @@ (65536 :> 9)) @@ 50 :> B!Empty
Lines(t) == [j \in 1..Len(t) |-> [t |-> t[j], rx |-> TRUE, ok |-> j # 2, b |-> <<j>>]]
Init == \/ what = "sentinel" /\ x \in [a : Addrs, s : Scales, k : {1, 10, 1000}]
        \/ what = "serials" /\ x \in Packs
        \/ what = "answer" /\ x \in [h : SUBSET {0, 1, 2, 3}, m : Reqs]
        \/ what = "order" /\ x \in [1..5 -> 1..3]
Next == UNCHANGED <<what, x>>

SentinelOk ==
    LET d1 == x.a * x.s
        d2 == (x.a + x.k) * x.s
        all == {<<a, s>> \in ({a \in {d1 \div s : s \in Scales} : a <= 65535} \X Scales) : a * s = d1 /\ (a + x.k) * s = d2}
    IN /\ TwoPass(d1, d2, x.k, <<>>) = <<TRUE, all>> /\ all = {<<x.a, x.s>>}
       /\ <<x.a, x.s>> \in OnePass(d1, <<>>) /\ \A c \in OnePass(d1, <<>>) : c[1] * c[2] = d1
       /\ OnePass(d1, <<<<x.a, x.a>>>>) \subseteq OnePass(d1, <<>>) /\ TwoPass(d1, d2, x.k, <<<<x.a + 1, x.a + 5>>>>)[2] = {}
SerialsOk ==
    LET old == Seeded(x)
    IN /\ Collide(x) = ~(\A G \in Groups(old) : Distinct(old, G))
       /\ ~Collide(x) => TellApart(old, old) /\ (\A f \in {Renamed(x, {50}), Renamed(x, DOMAIN x)} : TellApart(old, f) => f = old)
       /\ Collide(x) => TellApart(old, Renamed(x, DOMAIN x))
       \* renaming only those that collide may not do
       /\ Collide(x) => LET who == {a \in DOMAIN x : \E b \in DOMAIN x : a # b /\ x[a] = x[b]}
                        IN TellApart(old, Renamed(x, who)) \/ \E a \in who, b \in DOMAIN x \ who : Rename(x, a) = Serial(x[b])
AnswerOk ==
    LET seed == SeedOf(x.h)
        a == Answer(seed, x.m)
    IN /\ Len(a) <= 1
       /\ x.m.k \in {"hbr", "err"} => a = Nil
       /\ x.m.k = "qW" => Len(a) = 1
       /\ x.m.k \in Queries => (a = Nil <=> x.m.dev = 51)
       /\ a # Nil => a[1].dev = x.m.dev /\ Fc(a[1].k) = Fc(x.m.k) /\ a[1].a = x.m.a
       /\ x.m.k = "qHR" /\ x.m.dev = 17 => (a[1].err <=> ~(x.m.a..(x.m.a + x.m.b - 1) \subseteq x.h))
       /\ x.m.k = "qHR" /\ x.m.dev = 17 /\ ~a[1].err => \A j \in 1..x.m.b : a[1].vals[j] = (x.m.a + j - 1) % 7
       \* and a frame that says so says nothing else
       /\ x.m.k \in Queries \cup {"qW"} /\ a # Nil =>
            LET id == [inv |-> <<65, 66>>, ada |-> <<67>>]
                f == Encode([Blank EXCEPT !.k = a[1].k, !.ser = Ten(id.ada), !.pad = <<0, 0, 0, 0, 0, 0, 0, 18>>, !.dev = a[1].dev, !.err = a[1].err, !.inv = Ten(id.inv), !.a = a[1].a, !.b = a[1].b, !.vals = a[1].vals])
            IN /\ Says(a[1], id, f) /\ AllSaid(a, id, <<f>>) /\ ~AllSaid(a, id, <<f, f>>) /\ ~Says([a[1] EXCEPT !.dev = 99], id, f) /\ ~Says(a[1], [id EXCEPT !.inv = <<65>>], f)
               /\ (AllSaid(a, id, <<>>) <=> a[1].maybe)
OrderOk ==
    LET s == ByTime(Lines(x))
    IN /\ Len(s) = 4 /\ \A i, j \in DOMAIN s : i < j => s[i].t < s[j].t \/ (s[i].t = s[j].t /\ s[i].b[1] < s[j].b[1])
       /\ {s[j].b[1] : j \in DOMAIN s} = {1, 3, 4, 5}
Ok == CASE what = "sentinel" -> SentinelOk [] what = "serials" -> SerialsOk [] what = "answer" -> AnswerOk [] what = "order" -> OrderOk
=============================================================================
