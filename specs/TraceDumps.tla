----------------------------- MODULE TraceDumps -----------------------------
(***************************************************************************)
(* Recorded dumps and loads checked against Dumps.  Event kinds:            *)
(*   json   a cache, the entries written for it and what loading gave back   *)
(*   load   a document (top: is it an object) and what loading it did        *)
(*   write  caches and the lines written; parse  lines and what was read     *)
(***************************************************************************)
EXTENDS TraceLib
D == INSTANCE Dumps
VARIABLES tid, i
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0
Rows(c) == {<<r[1], r[2], r[3]>> : r \in RangeOf(c)}
Cells(c) == {<<r[1], r[2], r[3], r[4]>> : r \in RangeOf(c)}
Clause(e) ==
    CASE e.k = "json" -> IF RangeOf(e.entries) # {D!EntryOf(r) : r \in Rows(e.cache)} \/ Len(e.entries) # Len(e.cache) THEN "X01:document"
                         ELSE IF e.out # "ok" THEN "X01:own document refused" ELSE IF Rows(e.back) # Rows(e.cache) THEN "X01:json round trip" ELSE ""
      [] e.k = "load" -> IF e.out = "raised" THEN "X01:load failed"
                         ELSE IF ~e.top THEN (IF e.got # <<>> \/ e.odd THEN "X01:invented from no document" ELSE "")
                         ELSE IF e.odd THEN "X01:not a register" ELSE IF e.out # "ok" THEN "X01:refused" ELSE IF Rows(e.got) # D!Load(e.entries) THEN "X01:loaded" ELSE ""
      [] e.k = "write" -> IF e.lines # D!Write(Cells(e.caches)) THEN "X01:dump"
                          ELSE IF Cells(e.back) # {r \in Cells(e.caches) : r[4] >= 0} THEN "X01:dump round trip" ELSE ""
      [] e.k = "parse" -> IF e.out # "ok" THEN "X01:parse failed" ELSE IF e.odd THEN "X01:not a register" ELSE IF Cells(e.got) # D!Parse(e.lines) THEN "X01:parsed" ELSE ""
Diff(a, b) == ToString(<<a \ b, b \ a>>)
Want(e) == CASE e.k = "load" -> Diff(D!Load(e.entries), Rows(e.got))
             [] e.k = "parse" -> Diff(D!Parse(e.lines), Cells(e.got))
             [] OTHER -> ""
Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               bad == Clause(e)
           IN IF bad = "" THEN i' = i + 1 /\ UNCHANGED tid /\ (i' = Len(T.ev) => Accept(tid))
              ELSE Reject(tid, i + 1, <<bad>>, Want(e)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i>>
=============================================================================
