-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The protocol's byte layout: which bytes every message encodes to, which  *)
(* messages may be sent at all, and what a received frame means.            *)
(* Bytes are 0..255, frames are sequences of bytes.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise

Word(b, i) == b[i] * 256 + b[i + 1]
Two(w) == <<w \div 256, w % 256>>
RECURSIVE Words(_, _, _)
Words(b, i, n) == IF n = 0 THEN <<>> ELSE <<Word(b, i)>> \o Words(b, i + 2, n - 1)
Bytes(ws) == FoldLeft(LAMBDA a, w : a \o Two(w), <<>>, ws)

(* CRC-16/Modbus; on the wire the low byte comes first *)
RECURSIVE Shift(_, _)
Shift(c, k) == IF k = 0 THEN c ELSE Shift(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, k - 1)
CrcTable == [n \in 0..255 |-> Shift(n, 8)]
Crc(b) == FoldLeft(LAMBDA c, x : CrcTable[(c ^^ x) % 256] ^^ (c \div 256), 65535, b)
CheckWord(b) == LET c == Crc(b) IN (c % 256) * 256 + c \div 256

(* Registers that may be written: the everyday set and the installer set *)
Ranges(rs) == UNION {r[1]..r[2] : r \in rs}
WriteSafe == Ranges({<<20,20>>,<<27,27>>,<<29,29>>,<<31,32>>,<<35,40>>,<<44,45>>,<<50,50>>,<<56,57>>,<<59,59>>,<<94,96>>,
    <<104,104>>,<<110,112>>,<<114,114>>,<<116,116>>,<<163,163>>,<<166,166>>,<<172,172>>,<<199,199>>,<<246,247>>,<<249,250>>,
    <<252,253>>,<<255,256>>,<<258,259>>,<<261,262>>,<<264,265>>,<<267,268>>,<<276,277>>,<<279,280>>,<<282,283>>,<<285,286>>,
    <<288,289>>,<<291,292>>,<<294,295>>,<<297,299>>,<<311,311>>,<<313,314>>,<<317,320>>,<<331,331>>,<<554,573>>,<<1005,1005>>,
    <<1078,1078>>,<<1108,1116>>,<<1118,1123>>,<<2040,2040>>,<<2044,2071>>,<<5010,5010>>,<<5014,5014>>})
Installer == Ranges({<<63,83>>,<<101,102>>,<<115,115>>,<<162,162>>,<<174,174>>,<<201,201>>,<<300,300>>,<<302,303>>,<<305,310>>,
    <<312,312>>,<<315,316>>,<<321,330>>,<<332,351>>,<<540,548>>,<<552,553>>,<<1016,1016>>,<<1048,1048>>,<<1063,1063>>,<<1077,1077>>,
    <<1081,1087>>,<<1102,1103>>,<<1125,1131>>,<<1144,1144>>,<<1149,1149>>,<<1156,1156>>,<<1158,1165>>,<<4001,4001>>,<<5002,5009>>,
    <<5011,5012>>,<<20000,20003>>,<<20020,20021>>,<<20050,20051>>})

(***************************************************************************)
(* Messages.  k: hb (heartbeat request, received), hbr (its answer),        *)
(* qHR qIR qMR qW (requests), HR IR MR W null (responses), lan.             *)
(* ser/inv are 10 bytes, pad 8 bytes.  a, b: base and count, or register    *)
(* and value; a of a heartbeat is the adapter type.                         *)
(***************************************************************************)
Blank == [k |-> "err", ser |-> <<>>, pad |-> <<>>, dev |-> 0, err |-> FALSE, inv |-> <<>>, a |-> 0, b |-> 0, vals |-> <<>>,
          chk |-> 0, bad |-> FALSE, csv |-> <<>>]
Fc(k) == CASE k \in {"qHR", "HR"} -> 3 [] k \in {"qIR", "IR"} -> 4 [] k \in {"qMR", "MR"} -> 22 [] k \in {"qW", "W"} -> 6 [] OTHER -> 0
Reads == {"HR", "IR", "MR"}
Queries == {"qHR", "qIR", "qMR"}

Mbap(fid, inner) == <<89, 89, 0, 1>> \o Two(Len(inner) + 2) \o <<1, fid>> \o inner
Covered(m) ==
    <<m.dev, Fc(m.k) + (IF m.err THEN 128 ELSE 0)>>
    \o (IF m.k \in Reads \union {"W", "null"} THEN m.inv ELSE <<>>)
    \o (IF m.k = "null" THEN <<>> ELSE Two(m.a) \o Two(m.b))
    \o Bytes(m.vals)
Encode(m) ==
    IF m.k \in {"hb", "hbr"} THEN Mbap(1, m.ser \o <<m.a>>)
    ELSE LET c == Covered(m) IN Mbap(2, m.ser \o m.pad \o c \o Two(CheckWord(c)))

(* A serial is sent as exactly ten bytes: the last ten, padded on the left with '*' *)
Ten(s) == IF Len(s) >= 10 THEN SubSeq(s, Len(s) - 9, Len(s)) ELSE [i \in 1..(10 - Len(s)) |-> 42] \o s

U16(x) == x >= 0 /\ x <= 65535
(* ty: the type of the varying argument ("int" unless a caller got it wrong); inst: installer tier *)
Sendable(m, ty, inst) ==
    CASE m.k \in Queries -> ty = "int" /\ U16(m.a) /\ m.b >= 1 /\ m.b <= 60
      [] m.k = "qW" -> ty = "int" /\ U16(m.b) /\ m.a \in (IF inst THEN Installer ELSE WriteSafe)
      [] m.k \in Reads -> U16(m.a) /\ (m.err \/ Len(m.vals) = m.b)
      [] m.k = "W" -> ty = "int" /\ U16(m.b)
      [] OTHER -> TRUE

(* ---- what a whole frame means --------------------------------------------- *)
RECURSIVE StripL(_), StripR(_)
StripL(s) == IF s # <<>> /\ s[1] = 44 THEN StripL(Tail(s)) ELSE s
StripR(s) == IF s # <<>> /\ s[Len(s)] \in {10, 13} THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Split(_, _)
Split(s, acc) == IF s = <<>> THEN <<acc>> ELSE IF s[1] = 44 THEN <<acc>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(acc, s[1]))
Lan(ser, rest) ==
    LET r == SubSeq(rest, 8, Len(rest))
        n == IF Len(r) < 2 THEN 0 ELSE Len(r) - 2
        tail == SubSeq(r, n + 1, Len(r))
        parts == Split(StripR(StripL(SubSeq(r, 1, n))), <<>>)
    IN [Blank EXCEPT !.k = "lan", !.ser = ser, !.chk = IF Len(tail) = 2 THEN Word(tail, 1) ELSE tail[1],
                     !.csv = [i \in 1..3 |-> IF i <= Len(parts) THEN parts[i] ELSE <<>>]]
IsLan(rest) == Len(rest) >= 10 /\ (\A i \in 1..7 : rest[i] = 0) /\ rest[8] = 44

Response(f, ser, rest) ==
    LET n == Len(rest)
        fn == rest[10] % 128
        err == rest[10] >= 128
        body == SubSeq(rest, 21, n)                     \* after address, function and inverter serial
        m0 == [Blank EXCEPT !.ser = ser, !.pad = SubSeq(rest, 1, 8), !.dev = rest[9], !.err = err, !.inv = SubSeq(rest, 11, 20)]
        kind == CASE fn = 3 -> "HR" [] fn = 4 -> "IR" [] fn = 22 -> "MR" [] OTHER -> "err"
    IN IF n < 20 THEN Blank
       ELSE CASE fn = 0 -> IF Len(body) < 126 THEN Blank
                           ELSE [m0 EXCEPT !.k = "null", !.vals = Words(body, 1, 62), !.chk = Word(body, 125)]
              [] fn = 6 -> IF Len(body) < 6 \/ (~err /\ Len(body) > 6) THEN Blank
                           ELSE [m0 EXCEPT !.k = "W", !.a = Word(body, 1), !.b = Word(body, 3), !.chk = Word(body, 5)]
              [] kind # "err" -> IF Len(body) < 6 THEN Blank
                    ELSE LET cnt == IF err THEN 0 ELSE Word(body, 3)
                         IN IF cnt > 60 \/ Len(body) < 6 + 2 * cnt THEN Blank
                            ELSE LET chk == Word(body, 5 + 2 * cnt)
                                 IN [m0 EXCEPT !.k = kind, !.a = Word(body, 1), !.b = Word(body, 3), !.vals = Words(body, 5, cnt),
                                               !.chk = chk, !.bad = CheckWord(SubSeq(f, 27, Len(f) - 2)) # chk]
              [] OTHER -> Blank

Request(ser, rest) ==
    LET n == Len(rest)
        fn == rest[10] % 128
        err == rest[10] >= 128
        body == SubSeq(rest, 11, n)
        kind == CASE fn = 3 -> "qHR" [] fn = 4 -> "qIR" [] fn = 22 -> "qMR" [] fn = 6 -> "qW" [] OTHER -> "err"
    IN IF n < 16 THEN Blank
       ELSE IF kind = "err" THEN Blank
       ELSE IF kind = "qW" /\ ((~err /\ n > 16) \/ Word(body, 1) \notin WriteSafe) THEN Blank
       ELSE IF kind # "qW" /\ Word(body, 3) \notin 1..60 THEN Blank
       ELSE [Blank EXCEPT !.k = kind, !.ser = ser, !.pad = SubSeq(rest, 1, 8), !.dev = rest[9], !.err = err,
                          !.a = Word(body, 1), !.b = Word(body, 3), !.chk = Word(body, 5)]

\* side "c": what a client receives; "s": what a server receives
Decode(f, side) ==
    LET body == SubSeq(f, 9, Len(f))
        ser == SubSeq(body, 1, 10)
        rest == SubSeq(body, 11, Len(body))
    IN IF Len(f) < 8 THEN Blank
       ELSE IF f[8] = 1 THEN IF Len(body) < 11 THEN Blank
                             ELSE [Blank EXCEPT !.k = IF side = "c" THEN "hb" ELSE "hbr", !.ser = ser, !.a = body[11]]
       ELSE IF f[8] # 2 \/ Len(body) < 10 THEN Blank
       ELSE IF IsLan(rest) THEN Lan(ser, rest)
       ELSE IF side = "c" THEN Response(f, ser, rest) ELSE Request(ser, rest)
=============================================================================
