----------------------------- MODULE ArrivalTrace -----------------------------
EXTENDS Arrival, TraceKit

\* st: the agents known to have reached each polygon target, and the number of polygon targets
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [reached |-> <<>>]
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok")
Keep == UNCHANGED <<st, act>>
\* creation of the two nodes
TDomain == /\ IsOp("domain") /\ Keep
           /\ ReportAll(Ok \cup Clause("starts-with-zero-inactive", Ev.out = "ok" => Ev.inactive = 0) \cup Clause("agents-untouched", Ev.rest), 0)
Polys(ts) == SelectSeq(ts, LAMBDA t : t.poly)
\* indices (from 0) of the polygon targets, in order
PolyAt(ts) == SelectSeq([i \in DOMAIN ts |-> i - 1], LAMBDA i : ts[i + 1].poly)
Counts(ts, n) == [i \in DOMAIN PolyAt(ts) |-> [k |-> PolyAt(ts)[i], n |-> n[i]]]
TTargets == /\ IsOp("targets") /\ UNCHANGED act
            /\ st' = [reached |-> [i \in DOMAIN PolyAt(Ev.ts) |-> {}]]
            /\ ReportAll(Ok \cup Clause("one-count-per-polygon-target", Ev.out = "ok" => Ev.counts = Counts(Ev.ts, [i \in DOMAIN PolyAt(Ev.ts) |-> 0]))
                         \cup Clause("agents-untouched", Ev.rest), Polys(Ev.ts))
TInside == /\ IsOp("inside") /\ Keep
           /\ LET want == AfterInside(Ev.a, Ev.dom) IN
              ReportAll(Ok \cup Clause("active-iff-inside", Ev.out = "ok" => Len(Ev.b) = Len(Ev.a) /\ \A i \in DOMAIN Ev.a : MayBe(Ev.a[i].x, Ev.dom, Ev.b[i].active))
                           \cup Clause("inactive-counts-changes", Ev.out = "ok" => Ev.d1 = Ev.d0 + Changes(Ev.a, Ev.b))
                           \cup Clause("rest-unchanged", Ev.rest) \cup Clause("other-data-unchanged", Ev.others), want)
\* agents on an edge of a target may or may not count; then the counts lie between two bounds
Sure(t, a) == {i \in DOMAIN a : Inside(a[i].x, t) /\ ~OnEdge(a[i].x, t)}
Maybe(t, a) == {i \in DOMAIN a : Inside(a[i].x, t) \/ OnEdge(a[i].x, t)}
TReach == /\ IsOp("reach") /\ UNCHANGED act
          /\ LET ps == Polys(Ev.ts)
                 lo == [i \in DOMAIN ps |-> st.reached[i] \cup Sure(ps[i].pts, Ev.a)]
                 hi == [i \in DOMAIN ps |-> Cardinality(st.reached[i] \cup Maybe(ps[i].pts, Ev.a))]
                 exact == \A i \in DOMAIN ps : hi[i] = Cardinality(lo[i])
                 ok == Len(Ev.counts) = Len(ps) /\ \A i \in DOMAIN ps : Ev.counts[i].k = PolyAt(Ev.ts)[i] /\ Cardinality(lo[i]) <= Ev.counts[i].n /\ Ev.counts[i].n <= hi[i]
             IN /\ st' = [reached |-> lo]
                /\ Assert(exact, "script puts an agent on the edge of a target")
                /\ ReportAll(Ok \cup Clause("counts-agents-that-ever-arrived", Ev.out = "ok" => ok)
                             \cup Clause("rest-unchanged", Ev.rest) \cup Clause("other-data-unchanged", Ev.others), hi)
Known == {"domain", "targets", "inside", "reach"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TDomain \/ TTargets \/ TInside \/ TReach \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
