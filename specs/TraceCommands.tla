---------------------------- MODULE TraceCommands ----------------------------
(***************************************************************************)
(* Recorded runs of the real command builders and entry points.              *)
(*  build   name, layout, arguments, confirmation; what came out              *)
(*  effect  registers before and after, and every setting as then read back   *)
(*  sweep   which of all registers (in intervals) an entry point took          *)
(*  values  which values an entry point took for one register                  *)
(*  batch   one command handed to an entry point, and the frames transmitted   *)
(***************************************************************************)
EXTENDS TraceLib
C == INSTANCE Commands
X == INSTANCE Writes
Wi == INSTANCE Wire
To == INSTANCE Topology

VARIABLES tid, i
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0

Pairs(w) == [j \in DOMAIN w |-> <<w[j].reg, w[j].val>>]
(* a rate finer than the register's unit: refused, or written as the nearest *)
Fine(e) == e.name = "set_export_power_rate" /\ e.a[1].k = "num" /\ e.a[1].m \in 0..100000 /\ e.a[1].m % 100 # 0
Near(e) == e.ok => Len(e.w) = 1 /\ e.w[1].reg = 1063 /\ e.w[1].val \in {e.a[1].m \div 100, e.a[1].m \div 100 + 1}
\* asked of the object the library gives for a plant that identified itself
Layout(e) == IF e.layout = "plant" THEN To!SlotLayout(To!ModelOf(e.code, e.fw), e.fw) ELSE e.layout
BuildClause(e) ==
    LET want == C!Result(e.name, Layout(e), e.a, e.confirm)
    IN IF Fine(e) THEN (IF Near(e) THEN {} ELSE {"W02:writes"})
       ELSE IF e.ok /\ ~want.ok THEN {"W02:should have refused"}
       ELSE IF ~e.ok /\ want.ok THEN {"W02:refused"}
       ELSE IF Pairs(e.w) # want.w THEN {"W02:writes"}
       ELSE IF \E j \in DOMAIN e.w : e.w[j].dev # 17 THEN {"W02:addressed elsewhere"}
       ELSE IF \E j \in DOMAIN e.w : e.w[j].inst # C!Installer(e.name) THEN {"W02:tier"}
       ELSE {}

(* ---- read back ---- *)
Val(regs, r) == (CHOOSE x \in RangeOf(regs) : x[1] = r)[2]
IsHHMM(v) == v \div 100 < 24 /\ v % 100 < 60
Reading(st, regs) ==
    CASE st.t = "bool" -> <<IF Val(regs, st.regs[1]) = 0 THEN 0 ELSE 1>>
      [] st.t = "num" -> <<Val(regs, st.regs[1])>>
      [] st.t = "slot" -> LET a == Val(regs, st.regs[1])
                              b == Val(regs, st.regs[2])
                          IN IF IsHHMM(a) /\ IsHHMM(b) THEN <<a, b>> ELSE <<>>
      [] st.t = "date" -> [j \in 1..6 |-> Val(regs, st.regs[j]) + IF j = 1 THEN 2000 ELSE 0]
Field(fs, f) == LET m == {x \in RangeOf(fs) : x.f = f} IN IF m = {} THEN <<-99>> ELSE (CHOOSE x \in m : TRUE).v
EffectClause(e) ==
    LET touched == {e.w[j][1] : j \in DOMAIN e.w}
        sts == {C!Setting(e.layout, r) : r \in touched} \ {C!Setting(e.layout, 0)}
    IN (IF \A st \in sts : Field(e.read, st.f) = Reading(st, e.regs) THEN {} ELSE {"W02:reads back differently"})
       \union (IF RangeOf(e.changed) \subseteq {st.f : st \in sts} THEN {} ELSE {"W02:another setting moved"})
EffectWant(e) == {<<C!Setting(e.layout, e.w[j][1]), Field(e.read, C!Setting(e.layout, e.w[j][1]).f)>> : j \in DOMAIN e.w}

(* ---- entry points ---- *)
Within(iv, x) == \E j \in DOMAIN iv : x >= iv[j][1] /\ x <= iv[j][2]
Points(iv) == UNION {iv[j][1]..iv[j][2] : j \in DOMAIN iv}
Can(e, r, v) == X!Permitted(e.model, e.entry, [reg |-> r, val |-> v, inst |-> e.inst])
Allowed(e) == {r \in Wi!WriteSafe \union Wi!Installer : Can(e, r, 1)}
SweepClause(e) == IF Points(e.took) = Allowed(e) \intersect Points(e.asked) THEN {} ELSE {"W01:registers taken"}
ValuesClause(e) == IF \A v \in Points(e.asked) : Within(e.took, v) = Can(e, e.reg, v) THEN {} ELSE {"W01:values taken"}
BatchClause(e) ==
    LET ok == X!Accepted(e.model, e.entry, e.cmd)
    IN IF ~e.raised /\ ~ok THEN {"W01:accepted"}
       ELSE IF e.raised /\ ok THEN {"W01:refused"}
       ELSE IF e.sent # X!Sent(e.model, e.entry, e.dry, e.cmd) THEN {"W01:transmitted"}
       ELSE {}

Clauses(e) ==
    CASE e.k = "build" -> BuildClause(e)
      [] e.k = "effect" -> EffectClause(e)
      [] e.k = "sweep" -> SweepClause(e)
      [] e.k = "values" -> ValuesClause(e)
      [] e.k = "batch" -> BatchClause(e)
Want(e) ==
    CASE e.k = "build" -> C!Result(e.name, Layout(e), e.a, e.confirm)
      [] e.k = "effect" -> EffectWant(e)
      [] e.k = "sweep" -> Allowed(e)
      [] OTHER -> {}
Next ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           c == Clauses(e)
       IN IF c = {} THEN i' = i + 1 /\ UNCHANGED tid /\ (i' = Len(T.ev) => Accept(tid))
          ELSE Reject(tid, i + 1, c, Want(e)) /\ FALSE
Spec == Init /\ [][Next]_<<tid, i>>
=============================================================================
