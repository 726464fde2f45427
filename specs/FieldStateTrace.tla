---------------------------- MODULE FieldStateTrace ----------------------------
EXTENDS FieldState, TraceKit

LibErrors == {"raise:CrowdDynamicsException", "raise:InvalidType", "raise:InvalidValue", "raise:ValidationError"}
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [f \in 1..Cfg(tid).fields |-> New]
TSet == /\ More /\ Ev.op = "set" /\ KitNext
        /\ st' = [st EXCEPT ![Ev.f] = Assigned(@, Ev.name, Ev.v)] /\ UNCHANGED act
        /\ ReportAll(Clause("only-valid-geometries", (Ev.out = "ok") = ~Rejects(Ev.name, Ev.v))
                     \cup Clause("rejected-with-trait-error", Ev.out # "ok" => Ev.out \in {"raise:TraitError", "raise:ValidationError"})
                     \cup Clause("holds-what-was-set", Ev.now = st'), st')
TAsk == /\ More /\ Ev.op = "ask" /\ KitNext /\ UNCHANGED <<st, act>>
        /\ LET want == Outcome(st[Ev.f], Ev.what, Ev.i) IN
           ReportAll(Clause("outcome", CASE want = "ok" -> Ev.out = "ok" [] want = Lib -> Ev.out \in LibErrors
                                         [] want = "type" -> Ev.out \in {"raise:InvalidType"} [] OTHER -> Ev.out = "raise:IndexError")
                     \cup Clause("follows-the-field", Ev.out = "ok" => Ev.fresh)
                     \cup Clause("questions-change-nothing", Ev.now = st), want)
TOther == More /\ Ev.op \notin {"set", "ask"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TSet \/ TAsk \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
