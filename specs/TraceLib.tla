------------------------------ MODULE TraceLib ------------------------------
(* Common part of every trace specification: one JSON line per recorded run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Accept(tid) == PrintT(<<"ACCEPT", tid>>)
Reject(tid, i, clause, want) == PrintT(<<"REJECT", ToJson([tid |-> tid, i |-> i, clause |-> clause, want |-> want])>>)
RangeOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
