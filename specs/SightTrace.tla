------------------------------ MODULE SightTrace ------------------------------
EXTENDS Sight, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok")
Keep == UNCHANGED <<st, act>>
TCross == /\ IsOp("cross") /\ Keep
          /\ ReportAll(Ok \cup Clause("intersect", Ev.res = SegmentsCross(Ev.p, Ev.q, Ev.a, Ev.b)), SegmentsCross(Ev.p, Ev.q, Ev.a, Ev.b))
TBetween == /\ IsOp("between") /\ Keep
            /\ ReportAll(Ok \cup Clause("obstacle-between", Ev.res = Hidden(Ev.p, Ev.q, Ev.walls)), Hidden(Ev.p, Ev.q, Ev.walls))
TDetect == /\ IsOp("detect") /\ Keep
           /\ LET want == [i \in DOMAIN Ev.ps |-> Choices(Ev.ps[i], Ev.doors, Ev.walls, Ev.range)] IN
              ReportAll(Ok \cup Clause("nearest-visible-exit", Ev.out = "ok" => Len(Ev.exits) = Len(Ev.ps) /\ \A i \in DOMAIN Ev.ps : Ev.exits[i] \in want[i])
                           \cup Clause("detected", Ev.out = "ok" => \A i \in DOMAIN Ev.ps : Ev.has[i] = (Ev.exits[i] # NONE)), want)
\* the logic node; doors are given by the end points of the targets, counted double
TNode == /\ IsOp("node") /\ Keep
         /\ LET doors == [c \in DOMAIN Ev.targets |-> Add(Ev.targets[c][1], Ev.targets[c][2])]
                walls == [k \in DOMAIN Ev.walls |-> <<Add(Ev.walls[k][1], Ev.walls[k][1]), Add(Ev.walls[k][2], Ev.walls[k][2])>>]
                want == [i \in DOMAIN Ev.a |-> {AfterDetection(Ev.a[i], c) : c \in Choices(Add(Ev.a[i].x, Ev.a[i].x), doors, walls, 2 * Ev.range)}]
            IN ReportAll(Ok \cup Clause("rest-unchanged", Ev.rest)
                         \cup Clause("followers-that-see-an-exit-go-there", Ev.out = "ok" => \A i \in DOMAIN Ev.a : Ev.b[i] \in want[i]), want)
TRanks == /\ IsOp("ranks") /\ Keep
          /\ ReportAll(Ok \cup Clause("closer-to-exit", Ev.out = "ok" => Ranks(Ev.c, Ev.ps, Ev.r)), 0)
TCapacity == /\ IsOp("capacity") /\ Keep
             /\ ReportAll(Ok \cup Clause("capacity", Ev.out = "ok" => Ev.cap = Capacity(Ev.door, Ev.agent, Ev.layer, Ev.coeff)), Capacity(Ev.door, Ev.agent, Ev.layer, Ev.coeff))
Known == {"cross", "between", "detect", "node", "ranks", "capacity"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TCross \/ TBetween \/ TDetect \/ TNode \/ TRanks \/ TCapacity \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
