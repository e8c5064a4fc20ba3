----------------------------- MODULE TraceDetect -----------------------------
(***************************************************************************)
(* Recorded detects, liveness probes, saves and offline rebuilds of the real *)
(* client checked against Detect.                                           *)
(* Events: plant (what is there from now on), start (a detect), tx (an       *)
(*   address was asked), ok (and answered, acceptably), lost (the link),     *)
(*   end (what the detect did); probe (a whole liveness probe); load / save; *)
(*   offline (a rebuild from the registers the last detect left).            *)
(***************************************************************************)
EXTENDS TraceLib
D == INSTANCE Detect

VARIABLES tid, i, p, run
T == Traces[tid]
Idle == [prior |-> D!NoPrior, before |-> D!NoPrior, open |-> 0, inv |-> FALSE, lost |-> FALSE, cut |-> FALSE, last |-> D!NoPrior, out |-> "", asked |-> {}]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ p = <<>> /\ run = Idle
PlantOf(e) == LET ds == {e.devs[j].d : j \in DOMAIN e.devs} IN [d \in ds |-> (CHOOSE x \in RangeOf(e.devs) : x.d = d).w]

Failed(e) == e.out \in {"timeout", "comm"} /\ ~e.connected /\ e.installed = run.before
OffClauses(e, pid) ==    \* blocks the detect left marked absent
    LET c == D!Truth(p, run.prior)
        gone == {e.absent[j][2] : j \in DOMAIN e.absent}
    IN (IF D!Missing(p, run.prior) \subseteq gone THEN {} ELSE {pid \o ":not marked absent"})
       \union (IF \E j \in DOMAIN e.absent : <<e.absent[j][1], e.absent[j][2], e.absent[j][3], e.absent[j][4]>> \in D!LiveBlocks(c) THEN {pid \o ":marked absent though there"} ELSE {})
Good(e) ==
    LET want == D!Verdict(p, run.prior)
        c == D!Truth(p, run.prior)
    IN IF run.prior = D!NoPrior
       THEN IF e.out # "caps" THEN {"D01:no topology"}
            ELSE IF e.caps # c THEN {"D01:topology"}
            ELSE IF ~(e.installed = c /\ e.same) THEN {"D01:not installed"}
            ELSE IF ~e.connected /\ ~run.lost THEN {"D01:connection"} ELSE OffClauses(e, "D01")
       ELSE IF e.out # want THEN {"D02:" \o e.out \o " but " \o want}
       ELSE IF ~e.connected /\ ~run.lost THEN {"D02:connection"}
       ELSE IF want = "caps"
            THEN IF ~(e.caps = c /\ e.installed = c /\ e.same) THEN {"D02:topology"} ELSE OffClauses(e, "D02")
            ELSE IF e.installed # D!NoPrior THEN {"D02:topology kept"}
            ELSE IF e.prior # run.prior THEN {"D02:prior"}
            ELSE IF run.prior.model # D!Model(p) THEN (IF e.caps.model = D!Model(p) THEN {} ELSE {"D02:actual"})
            ELSE IF e.caps # c THEN {"D02:actual"} ELSE {}
EndClause(e) ==
    IF ~run.inv \/ run.cut THEN (IF Failed(e) THEN {} ELSE {"D03:" \o e.out})
    ELSE IF D!Model(p) = "unknown" THEN (IF e.out = "caps" THEN {"D01:no such plant"} ELSE IF e.installed # run.before THEN {"D03:installed"} ELSE {})
    ELSE IF run.lost /\ Failed(e) THEN {} ELSE Good(e)
Clauses(e) ==
    CASE e.k = "tx" -> IF run.prior # D!NoPrior /\ run.inv /\ run.prior.model = D!Model(p) /\ e.d \notin D!Allowed(p, run.prior) THEN {"D02:asked of others"}
                       ELSE IF run.prior # D!NoPrior /\ ~run.inv /\ e.d # 17 THEN {"D02:asked too early"} ELSE {}
      [] e.k = "end" -> EndClause(e)
      [] e.k = "probe" -> IF e.out = "raised" THEN {"D03:probe raised"}
                          ELSE IF (e.out = "yes") # e.answered THEN {"D03:probe said " \o e.out}
                          ELSE IF e.connected # e.answered THEN {"D03:probe left the connection"} ELSE {}
      [] e.k = "save" -> IF e.saved # D!Save(e.caps) THEN {"D04:saved"} ELSE IF e.back # e.caps THEN {"D04:read back"} ELSE {}
      [] e.k = "load" -> IF e.got # D!Load(e.fields) THEN {"D04:load"} ELSE {}
      [] e.k = "offline" -> IF e.got # e.want THEN {"D04:offline"} ELSE {}
      [] OTHER -> {}
After(e) ==
    CASE e.k = "start" -> [Idle EXCEPT !.prior = e.prior, !.before = e.before]
      [] e.k = "tx" -> [run EXCEPT !.open = IF e.rollup THEN 0 ELSE e.d]
      [] e.k = "ok" -> [run EXCEPT !.open = IF e.d = @ THEN 0 ELSE @, !.inv = @ \/ e.id]
      [] e.k = "lost" -> [run EXCEPT !.lost = TRUE, !.cut = run.open # 0]
      [] OTHER -> run
Want(e) == IF e.k = "end" /\ run.inv THEN [verdict |-> D!Verdict(p, run.prior), caps |-> D!Truth(p, run.prior), missing |-> D!Missing(p, run.prior)]
           ELSE IF e.k = "load" THEN D!Load(e.fields) ELSE run
Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           c == Clauses(e)
       IN IF c = {}
          THEN /\ run' = After(e) /\ i' = i + 1 /\ UNCHANGED tid
               /\ p' = IF e.k = "plant" THEN PlantOf(e) ELSE p
               /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, Want(e)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i, p, run>>
=============================================================================
