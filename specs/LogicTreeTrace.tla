-------------------------- MODULE LogicTreeTrace --------------------------
EXTENDS LogicTree, TraceKit
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = InitSt(Cfg(tid).names)
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ act' = [op |-> o]
\* every event carries the whole forest
Shape == Clause("tree", Ev.out = "ok" /\ Ev.par = st'.par /\ Ev.kids = st'.kids)
TAdd == IsOp("add") /\ Add(Ev.p, Ev.cs) /\ ReportAll(Shape \cup Clause("returns-self", Ev.ret = Ev.p), st'.kids)
TBefore == IsOp("before") /\ InjectBefore(Ev.self, Ev.node) /\ ReportAll(Shape, st'.kids)
TAfter == IsOp("after") /\ InjectAfter(Ev.self, Ev.node) /\ ReportAll(Shape, st'.kids)
TDetach == IsOp("detach") /\ Detach(Ev.self) /\ ReportAll(Shape, st'.kids)
TLookup == IsOp("lookup") /\ UNCHANGED st
           /\ LET h == Lookup(st, Ev.start, Ev.name)
              IN ReportAll(Clause("lookup", IF h = 0 THEN Ev.out = "raise:KeyError" ELSE Ev.out = "ok" /\ Ev.res = h), h)
TEval == IsOp("eval") /\ UNCHANGED st
         /\ LET e == Evaluation(st, Ev.start)
            IN ReportAll(Clause("evaluation-order", Ev.out = "ok" /\ Ev.res = e) \cup Clause("tree", Ev.par = st.par /\ Ev.kids = st.kids)
                         \cup Clause("iterations", Ev.it = 1), e)
TOther == /\ More /\ Ev.op \notin {"add", "before", "after", "detach", "lookup", "eval"}
          /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TAdd \/ TBefore \/ TAfter \/ TDetach \/ TLookup \/ TEval \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
