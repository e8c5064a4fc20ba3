------------------------------ MODULE MC_Framer ------------------------------
(***************************************************************************)
(* Framer at a small scale: a two-byte marker, lengths up to 5, one-byte    *)
(* header fields - every stream of the pool under every chunking.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Garbage,      \* alphabet of leading garbage ({} for none)
          GarbageLen, Frames, Chunks, WithMarkers, FrameSizes, Alphabet, Kinds

M == <<1, 2>>
Len3(b) == b[3]
Ok(b) == b[3] <= 5 /\ b[4] \in {0, 1}
FL(b) == 4 + b[3]
F == INSTANCE Framer WITH Marker <- M, MinLen <- 6, Plausible <- Ok, FrameLen <- FL
MaxFrame == 9

HasMark(b, lo, hi) == F!Marks(b, lo, hi) # {}
Pool == {f \in UNION {{<<1, 2, L, k>> \o p : p \in [1..L -> Alphabet], k \in Kinds} : L \in FrameSizes} :
            ~HasMark(f, 2, IF WithMarkers THEN 6 ELSE Len(f))}
GarbagePool == UNION {[1..n -> Garbage] : n \in 0..GarbageLen}

RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>> ELSE fs[1] \o Flat(Tail(fs))
RECURSIVE EndOf(_, _)
EndOf(fs, i) == IF i = 0 THEN 0 ELSE EndOf(fs, i - 1) + Len(fs[i])

VARIABLES g, fs, pos, buf, got
vars == <<g, fs, pos, buf, got>>
Stream == g \o Flat(fs)
Init == g \in GarbagePool /\ fs \in [1..Frames -> Pool] /\ pos = 0 /\ buf = <<>> /\ got = <<>>
Next == \E n \in Chunks :
          /\ pos < Len(Stream)
          /\ LET to == IF pos + n > Len(Stream) THEN Len(Stream) ELSE pos + n
                 r == F!Feed(buf, SubSeq(Stream, pos + 1, to))
             IN pos' = to /\ buf' = r.buf /\ got' = got \o r.out
          /\ UNCHANGED <<g, fs>>
Spec == Init /\ [][Next]_vars

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Complete(i) == Len(g) + EndOf(fs, i) <= pos
\* F01: nothing but the frames, in order, each as soon as it is complete (unless under MinLen bytes are buffered)
Delivery == g = <<>> =>
    /\ IsPrefix(got, fs)
    /\ \A i \in 1..Frames : (Complete(i) /\ Len(got) < i) => Len(buf) < 6
\* F02: garbage without a marker costs nothing
CleanGarbage == ~HasMark(g, 1, Len(g)) =>
    /\ IsPrefix(got, fs)
    /\ \A i \in 1..Frames : (Complete(i) /\ Len(got) < i) => Len(buf) < 6
\* markers in the garbage whose headers are all implausible cost nothing once all is fed
AllBad(b) == \A i \in F!Marks(b, 1, Len(g)) : ~Ok(F!From(b, i))
Implausible == (AllBad(Stream) /\ pos = Len(Stream)) =>
    /\ IsPrefix(got, fs)
    /\ Len(got) = Frames \/ Len(buf) < 6
\* whatever the garbage claims, it hides no frame starting beyond the longest plausible claim
Suffix(i) == \E k \in 0..Len(got) : SubSeq(got, k + 1, Len(got)) = SubSeq(fs, i, Frames)
Recovery == (~WithMarkers /\ pos = Len(Stream) /\ Len(buf) = 0) =>
    \A i \in 1..Frames : EndOf(fs, i - 1) >= MaxFrame => Suffix(i)
Bounded == Len(buf) < MaxFrame + 6
\* chunking never changes the total outcome when no header is too near its predecessor
Whole == F!Feed(<<>>, Stream)
Independent == (pos = Len(Stream) /\ ~HasMark(g, 1, Len(g))) => (got = Whole.out /\ buf = Whole.buf)
=============================================================================
