-------------------------- MODULE SpatialHashTrace --------------------------
EXTENDS SpatialHash, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"]
             /\ st = [i \in DOMAIN Cfg(tid).grids |->
                        NewGrid(Cfg(tid).grids[i].cell, Cfg(tid).grids[i].dim, Cfg(tid).grids[i].kind)]

IsOp(o) == More /\ Ev.op = o /\ KitNext
TPut == /\ IsOp("put")
        /\ ReportAll(Clause("stored", Ev.out = "ok"), "ok")
        /\ Put(Ev.g, Ev.p, Ev.v)
TGet == /\ IsOp("get")
        /\ LET want == GetRes(st[Ev.g], Ev.p) IN ReportAll(Clause("cell-content", Ev.out = "ok" /\ Ev.res = want), want)
        /\ Get(Ev.g, Ev.p)
TNear == /\ IsOp("near")
         /\ LET want == NearRes(st[Ev.g], Ev.p, Ev.r)
            IN ReportAll(Clause("neighbourhood", Ev.out = "ok" /\ BagEq(Ev.res, want)), want)
         /\ Near(Ev.g, Ev.p, Ev.r)
TBad == /\ IsOp("bad")
        /\ ReportAll(Clause("bad-key-rejected", Ev.out = "raise:KeyError"), "raise:KeyError")
        /\ Bad(Ev.g, Ev.how)
TOther == /\ More /\ Ev.op \notin {"put", "get", "near", "bad"} /\ KitNext
          /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TPut \/ TGet \/ TNear \/ TBad \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
