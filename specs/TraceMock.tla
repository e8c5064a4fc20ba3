------------------------------ MODULE TraceMock ------------------------------
(***************************************************************************)
(* Recorded seeds, conversations and identifications checked against Mock.   *)
(***************************************************************************)
EXTENDS TraceLib
M == INSTANCE Mock
VARIABLES tid, i, s
T == Traces[tid]
Regs(ps) == [x \in {p[1] : p \in RangeOf(ps)} |-> (CHOOSE p \in RangeOf(ps) : p[1] = x)[2]]
Seed(ds) == [d \in {e[1] : e \in RangeOf(ds)} |-> Regs((CHOOSE e \in RangeOf(ds) : e[1] = d)[2])]
\* the seed being served, its names, and what is still buffered of each conversation
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = [seed |-> <<>>, ident |-> [inv |-> <<>>, ada |-> <<>>], buf |-> <<>>]
Or(x, y) == IF x = <<>> THEN y ELSE x

Serve(e) == [c |-> "", s |-> [seed |-> Seed(e.devs), ident |-> [inv |-> Or(e.inv, e.none), ada |-> Or(e.ada, e.none)], buf |-> [n \in 1..e.conns |-> <<>>]]]
Chunk(e) ==
    LET f == M!Fr!Feed(s.buf[e.conn], e.data)
        want == M!Answers(s.seed, M!Messages(f.out, "s"))
        got == M!Fr!Feed(<<>>, e.got)
    IN [c |-> IF ~e.open THEN "T01:hung up" ELSE IF got.buf = <<>> /\ M!AllSaid(want, s.ident, got.out) THEN "" ELSE "T01:answers",
        s |-> [s EXCEPT !.buf[e.conn] = f.buf]]
Capture(e) ==
    LET want == M!FromCapture(e.lines)
    IN IF ~want.any THEN (IF e.out = "ValueError" THEN "" ELSE "T01:empty capture")
       ELSE IF e.out # "ok" THEN "T01:raised"
       ELSE IF M!Kept(Seed(e.held)) # want.devs THEN "T01:capture"
       ELSE IF ~M!TellApart(M!Kept(Seed(e.held)), M!Kept(Seed(e.devs))) THEN "T01:serials"
       ELSE IF e.inv # Or(want.inv, e.none) \/ e.ada # Or(want.ada, e.none) THEN "T01:names" ELSE ""
Spec1(e) == IF ~M!Acceptable(e.banks, e.verify, [inv |-> e.inv, ada |-> e.ada]) THEN (IF e.out = "ValueError" THEN "" ELSE "T01:unservable bank")
            ELSE IF e.out # "ok" THEN "T01:refused" ELSE IF M!Kept(Seed(e.devs)) # M!Kept(M!Written(e.banks, <<>>)) THEN "T01:bank" ELSE ""
Sentinel(e) == IF Seed(e.after) # Seed(e.base) THEN "T01:base altered"
               ELSE IF ~M!Fits(e.overlay, e.offset) THEN (IF e.out = "ValueError" THEN "" ELSE "T01:sentinel too large")
               ELSE IF e.out # "ok" THEN "T01:raised" ELSE IF M!Kept(Seed(e.devs)) # M!Kept(M!Overlaid(e.overlay, e.offset, Seed(e.base))) THEN "T01:sentinels" ELSE ""
Identify(e) ==
    LET two == M!TwoPass(e.d1, e.d2, e.kk, e.range)
        got == {<<g[1], g[2]>> : g \in RangeOf(e.got)}
        want == IF e.two THEN two[2] ELSE M!OnePass(e.d1, e.range)
    IN IF e.out # "ok" THEN "T01:raised" ELSE IF e.two /\ ~two[1] THEN "" ELSE IF ~(want \subseteq got /\ got \subseteq (IF e.two THEN want ELSE want \cup M!Nearly(e.d1, e.range))) \/ Len(e.got) # Cardinality(got) THEN "T01:identify"
       ELSE IF \E g \in RangeOf(e.got) : g[3] # (IF e.two THEN "two-pass" ELSE "single-pass") THEN "T01:confidence" ELSE ""
\* a real client has been through the plant: what it holds is what is served
Client(e) == IF e.out # "ok" THEN "T01:client" ELSE IF e.held = <<>> THEN "T01:client learned nothing"
             ELSE IF \A d \in RangeOf(e.held) : \A p \in RangeOf(d[2]) : d[1] \in DOMAIN s.seed /\ p[1] \in DOMAIN s.seed[d[1]] /\ s.seed[d[1]][p[1]] = p[2] THEN "" ELSE "T01:client holds something else"

Step(e) == CASE e.k = "serve" -> Serve(e) [] e.k = "chunk" -> Chunk(e)
             [] OTHER -> [s |-> s, c |-> CASE e.k = "capture" -> Capture(e) [] e.k = "spec" -> Spec1(e) [] e.k = "sentinel" -> Sentinel(e)
                                            [] e.k = "identify" -> Identify(e) [] e.k = "client" -> Client(e)]
Brief(e) == CASE e.k = "identify" -> ToString(<<M!TwoPass(e.d1, e.d2, e.kk, e.range), M!OnePass(e.d1, e.range)>>)
              [] e.k = "chunk" -> ToString(M!Answers(s.seed, M!Messages(M!Fr!Feed(s.buf[e.conn], e.data).out, "s")))
              [] e.k = "capture" -> ToString([d \in DOMAIN M!FromCapture(e.lines).devs |-> Cardinality(DOMAIN M!FromCapture(e.lines).devs[d])])
              [] OTHER -> ""
Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               r == Step(e)
           IN IF r.c = "" THEN s' = r.s /\ i' = i + 1 /\ UNCHANGED tid /\ (i' = Len(T.ev) => Accept(tid))
              ELSE Reject(tid, i + 1, <<r.c>>, Brief(e)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, s>>
=============================================================================
