-------------------------------- MODULE Dumps --------------------------------
(***************************************************************************)
(* Register dumps: the JSON form of one cache and the compact text form of   *)
(* many.  A cache is a set of <<bank, index, value>> (value -1: present      *)
(* without a value); caches are a set of <<device, bank, index, value>>.     *)
(* Text is a sequence of lines, a line a sequence of character codes.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Banks == <<"HR", "IR", "MR">>
BankText == [HR |-> <<72, 82>>, IR |-> <<73, 82>>, MR |-> <<77, 82>>]
Top == 65535
Stride == 60

(* ---- numbers as text --------------------------------------------------- *)
DigitOf(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Hex4(v) == <<DigitOf(v \div 4096), DigitOf((v \div 256) % 16), DigitOf((v \div 16) % 16), DigitOf(v % 16)>>
HexDev(d) == (IF d >= 256 THEN (IF d >= 4096 THEN <<DigitOf(d \div 4096)>> ELSE <<>>) \o <<DigitOf((d \div 256) % 16)>> ELSE <<>>)
             \o <<DigitOf((d \div 16) % 16), DigitOf(d % 16)>>
IsDec(c) == c \in 48..57
IsHex(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF c < 58 THEN c - 48 ELSE IF c < 71 THEN c - 55 ELSE c - 87
Big == 1000000
NumOf(s, base) == FoldLeft(LAMBDA a, c : IF a * base + HexVal(c) > Big THEN Big ELSE a * base + HexVal(c), 0, s)
AllOf(s, P(_)) == \A i \in DOMAIN s : P(s[i])

(* ---- JSON ---------------------------------------------------------------- *)
(* An entry of a document: the key's text and what stands against it.         *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
KeyOf(k) ==     \* -> <<bank, index>> or <<>>
    IF Len(k) < 4 \/ ~\E b \in DOMAIN BankText : SubSeq(k, 1, 2) = BankText[b] THEN <<>>
    ELSE LET b == CHOOSE x \in DOMAIN BankText : SubSeq(k, 1, 2) = BankText[x]
             round == k[3] = 40 /\ k[Len(k)] = 41
             ds == IF round THEN SubSeq(k, 4, Len(k) - 1) ELSE IF k[3] = 58 THEN SubSeq(k, 4, Len(k)) ELSE <<>>
         IN IF ds = <<>> \/ ~AllOf(ds, IsDec) \/ NumOf(ds, 10) > Top THEN <<>> ELSE <<b, NumOf(ds, 10)>>
\* kinds: "int" (also a fraction that is whole), "null"; anything else is no register value
Loads(e) == KeyOf(e.key) # <<>> /\ (e.kind = "null" \/ (e.kind = "int" /\ e.v \in 0..Top))
ValOf(e) == IF e.kind = "null" THEN -1 ELSE e.v
Load(es) == FoldLeft(LAMBDA c, e : IF ~Loads(e) THEN c
                                   ELSE LET k == KeyOf(e.key) IN {r \in c : <<r[1], r[2]>> # k} \union {<<k[1], k[2], ValOf(e)>>}, {}, es)
EntryOf(r) == [key |-> BankText[r[1]] \o <<58>> \o Dec(r[2]), kind |-> IF r[3] = -1 THEN "null" ELSE "int", v |-> IF r[3] = -1 THEN 0 ELSE r[3]]

(* ---- the compact form: writing ------------------------------------------- *)
\* runs of consecutive registers that stay on one page of 60
Starts(ix) == {i \in ix : i % Stride = 0 \/ ~(i - 1 \in ix)}
RunLen(ix, i) == CHOOSE n \in 1..Stride : (\A j \in 0..(n - 1) : i + j \in ix) /\ (i + n \notin ix \/ (i + n) % Stride = 0)
Row(d, b, i, vals) == <<48, 120>> \o HexDev(d) \o <<58>> \o BankText[b] \o <<40>> \o Dec(i) \o <<44>> \o Dec(Len(vals)) \o <<41, 32>>
                      \o FoldLeft(LAMBDA a, v : a \o Hex4(v), <<>>, vals)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
RowsOf(caches, d, b) ==
    LET at == {r \in caches : r[1] = d /\ r[2] = b /\ r[4] >= 0}
        ix == {r[3] : r \in at}
        f == [i \in ix |-> (CHOOSE r \in at : r[3] = i)[4]]
    IN [k \in 1..Cardinality(Starts(ix)) |-> LET i == Sorted(Starts(ix))[k] IN Row(d, b, i, [j \in 1..RunLen(ix, i) |-> f[i + j - 1]])]
Write(caches) == LET ds == Sorted({r[1] : r \in caches})
                 IN Flat([k \in 1..Len(ds) |-> Flat([j \in 1..3 |-> RowsOf(caches, ds[k], Banks[j])])])

(* ---- and reading ------------------------------------------------------------ *)
Blank(c) == c \in {32, 9, 10, 11, 12, 13}
Strip(l) == LET on == {i \in DOMAIN l : ~Blank(l[i])} IN IF on = {} THEN <<>> ELSE SubSeq(l, Min(on), Max(on))
From(l, i) == SubSeq(l, i, Len(l))
Find(l, c) == LET at == {i \in DOMAIN l : l[i] = c} IN IF at = {} THEN 0 ELSE Min(at)
NoRow == [ok |-> FALSE]
\* "HR(60,3)" followed by ``sep`` (nothing or a colon), blanks, hex
Body(l, sep) ==
    LET open == 3
        comma == Find(l, 44)
        close == Find(l, 41)
        b == {x \in DOMAIN BankText : Len(l) >= 3 /\ SubSeq(l, 1, 2) = BankText[x]}
        n1 == SubSeq(l, open + 1, comma - 1)
        n2 == SubSeq(l, comma + 1, close - 1)
        rest == From(l, close + 1 + Len(sep))
        hex == Strip(rest)
    IN IF b = {} \/ Len(l) < 8 \/ comma < 5 \/ close < comma + 2 THEN NoRow
       ELSE IF l[open] # 40 \/ ~AllOf(n1, IsDec) \/ ~AllOf(n2, IsDec) \/ ~IsPrefix(sep, From(l, close + 1)) THEN NoRow
       ELSE IF rest = <<>> THEN NoRow
       ELSE IF ~Blank(rest[1]) \/ ~AllOf(hex, IsHex) THEN NoRow
       ELSE [ok |-> TRUE, b |-> CHOOSE x \in b : TRUE, base |-> NumOf(n1, 10), n |-> NumOf(n2, 10), hex |-> hex]
Inline(l) == LET colon == Find(l, 58)
                 d == SubSeq(l, 3, colon - 1)
             IN IF colon < 4 \/ SubSeq(l, 1, 2) # <<48, 120>> \/ ~AllOf(d, IsHex) THEN NoRow
                ELSE LET r == Body(From(l, colon + 1), <<>>) IN IF ~r.ok THEN NoRow ELSE [ok |-> TRUE, d |-> NumOf(d, 16), b |-> r.b, base |-> r.base, n |-> r.n, hex |-> r.hex]
\* the older form announces the device in a heading:  # HR probe @ device 0x32 ...
Word(l) == LET at == {i \in DOMAIN l : Blank(l[i])} IN IF at = {} THEN l ELSE SubSeq(l, 1, Min(at) - 1)
Words(l) == LET RECURSIVE W(_, _)
                W(x, k) == LET s == Strip(x) IN IF s = <<>> \/ k = 0 THEN <<>> ELSE <<Word(s)>> \o W(From(s, Len(Word(s)) + 1), k - 1)
            IN W(l, 5)
Alnum(c) == IsDec(c) \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
Probe == <<112, 114, 111, 98, 101>>
Device == <<100, 101, 118, 105, 99, 101>>
Heading(l) ==   \* -> device or -1
    IF l = <<>> \/ l[1] # 35 THEN -1
    ELSE LET w == Words(From(l, 2))
         IN IF Len(w) < 5 \/ ~AllOf(w[1], Alnum) \/ w[2] # Probe \/ w[3] # <<64>> \/ w[4] # Device THEN -1
            ELSE IF Len(w[5]) < 3 \/ SubSeq(w[5], 1, 2) # <<48, 120>> \/ ~IsHex(w[5][3]) THEN -1
            ELSE LET odd == {i \in 3..Len(w[5]) : ~IsHex(w[5][i])}
                 IN NumOf(SubSeq(w[5], 3, IF odd = {} THEN Len(w[5]) ELSE Min(odd) - 1), 16)
BareHex(l) == l # <<>> /\ AllOf(l, IsHex)
Set(caches, d, b, i, v) == {r \in caches : r[1] # d \/ r[2] # b \/ r[3] # i} \union {<<d, b, i, v>>}
Fill(caches, r, hex) == LET new == {<<r.d, r.b, r.base + j - 1, NumOf(SubSeq(hex, 4 * j - 3, 4 * j), 16)>> : j \in 1..r.n}
                        IN {x \in caches : ~(x[1] = r.d /\ x[2] = r.b /\ x[3] \in r.base..(r.base + r.n - 1))} \union new
Closed(st) == IF st.row.ok /\ Len(st.row.hex) = 4 * st.row.n /\ st.row.base + st.row.n <= Top + 1 THEN Fill(st.caches, st.row, st.row.hex) ELSE st.caches
Take(st, l) ==
    IF st.row.ok /\ Len(st.row.hex) < 4 * st.row.n /\ BareHex(l) THEN [st EXCEPT !.row.hex = @ \o l]       \* the rest of a broken row
    ELSE LET h == Heading(l)
             inl == Inline(l)
             old == IF st.dev >= 0 THEN Body(l, <<58>>) ELSE NoRow
             now == [caches |-> Closed(st), dev |-> IF h >= 0 THEN h ELSE st.dev]
             r == IF h >= 0 THEN NoRow ELSE IF inl.ok THEN inl ELSE IF old.ok THEN [ok |-> TRUE, d |-> st.dev, b |-> old.b, base |-> old.base, n |-> old.n, hex |-> old.hex] ELSE NoRow
         IN [caches |-> now.caches, dev |-> now.dev, row |-> r]
Parse(lines) == Closed(FoldLeft(LAMBDA st, l : Take(st, Strip(l)), [caches |-> {}, dev |-> -1, row |-> NoRow], lines))
=============================================================================
