--------------------------- MODULE GroupOpsTrace ---------------------------
EXTENDS GroupOps, TraceKit

Kinds == Cfg(tid).kinds
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = Start(Len(Kinds))
IsOp(o) == More /\ Ev.op = o /\ KitNext
TChange == /\ More /\ Ev.op \in {"new", "set", "hold"} /\ KitNext
           /\ LET g == SetMany(IF Ev.op = "new" THEN [Start(Len(Kinds)) EXCEPT !.used = st.used] ELSE st, Kinds, Ev.kw) IN
              /\ st' = g
              /\ ReportAll(Clause("accepted", Ev.out = "ok")
                      \cup Clause("members", Ev.members = g.members)
                      \cup Clause("taken-once", \A s \in DOMAIN Kinds : Kinds[s].kind = "collection" \/ Ev.used[s] = g.used[s]),
                           [members |-> g.members, used |-> g.used])
           /\ act' = act
TOther == More /\ Ev.op \notin {"new", "set", "hold"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TChange \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
