------------------------------- MODULE MC_Dumps -------------------------------
(***************************************************************************)
(* Every small set of caches, written, then handled the way people handle    *)
(* pasted text: lines broken, indented, commented, upper-cased, reordered -   *)
(* and at most one piece lost.  Reading must give back the registers, or,     *)
(* after a loss, some of them and nothing else.                               *)
(***************************************************************************)
EXTENDS Dumps, TLC
CONSTANTS Wide, Edits
Cells == {<<17, "HR", 58>>, <<17, "HR", 59>>, <<17, "HR", 60>>, <<17, "HR", 62>>, <<17, "IR", 59>>, <<50, "MR", 0>>, <<50, "HR", 59>>}
         \union (IF Wide THEN {<<17, "HR", 61>>, <<160, "IR", 65535>>} ELSE {})
Vals == IF Wide THEN {-1, 0, 43981, 65535} ELSE {-1, 0, 43981}
VARIABLES caches, lines, n, lost
vars == <<caches, lines, n, lost>>
HexAt(l) == LET p == Find(l, 41) IN IF p = 0 THEN 1 ELSE p + 2      \* where a line's hex starts
Some == UNION {[S -> Vals] : S \in {C \in SUBSET Cells : Cardinality(C) <= 4}}
AsSet(f) == {<<c[1], c[2], c[3], f[c]>> : c \in DOMAIN f}
Real == {r \in caches : r[4] >= 0}
Init == caches \in {AsSet(f) : f \in Some} /\ lines = Write(caches) /\ n = 0 /\ lost = FALSE
Put(k, ls) == SubSeq(lines, 1, k - 1) \o ls \o From(lines, k + 1)
Note == <<35, 32, 120>>
Upper(l) == [i \in DOMAIN l |-> IF i >= HexAt(l) /\ l[i] \in 97..102 THEN l[i] - 32 ELSE l[i]]
Edit == \E k \in DOMAIN lines :
          \/ \E p \in (HexAt(lines[k]) + 1)..Len(lines[k]) : lines' = Put(k, <<SubSeq(lines[k], 1, p - 1), From(lines[k], p)>>) /\ UNCHANGED lost
          \/ ~BareHex(lines[k]) /\ lines' = Put(k, <<Note, lines[k]>>) /\ UNCHANGED lost
          \/ lines' = Put(k, <<<<32, 9>> \o lines[k] \o <<32>>>>) /\ UNCHANGED lost
          \/ lines' = Put(k, <<Upper(lines[k])>>) /\ UNCHANGED lost
          \/ ~lost /\ lost' = TRUE /\ lines' = Put(k, <<>>)
          \/ ~lost /\ lost' = TRUE /\ \E c \in 1..3 : c < Len(lines[k]) /\ lines' = Put(k, <<SubSeq(lines[k], 1, Len(lines[k]) - c)>>)
Next == n < Edits /\ n' = n + 1 /\ Edit /\ UNCHANGED caches
Spec == Init /\ [][Next]_vars
RoundTrip == LET got == Parse(lines) IN got \subseteq Real /\ (~lost => got = Real)
\* written rows never overlap or leave their page, and come in order
Shape == n = 0 =>
    LET rows == [k \in DOMAIN lines |-> Inline(lines[k])]
    IN /\ \A k \in DOMAIN rows : rows[k].ok /\ rows[k].n >= 1 /\ Len(rows[k].hex) = 4 * rows[k].n /\ rows[k].base \div Stride = (rows[k].base + rows[k].n - 1) \div Stride
       /\ \A k, j \in DOMAIN rows : k < j => rows[k].d <= rows[j].d /\ (rows[k].d = rows[j].d /\ rows[k].b = rows[j].b => rows[k].base + rows[k].n <= rows[j].base)
One(d) == {<<r[2], r[3], r[4]>> : r \in {x \in caches : x[1] = d}}
Json == n = 0 => \A d \in {r[1] : r \in caches} : Load([k \in 1..Cardinality(One(d)) |-> EntryOf(SetToSeq(One(d))[k])]) = One(d)
=============================================================================
