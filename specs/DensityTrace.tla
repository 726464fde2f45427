----------------------------- MODULE DensityTrace -----------------------------
EXTENDS Density, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok") \cup Clause("points-unchanged", Ev.same)
Keep == UNCHANGED <<st, act>>
AbsI(x) == IF x < 0 THEN -x ELSE x
GridOf(ps, c) == Clause("grid-spans-the-agents", Ev.out = "ok" => Ev.shape = Shape(ps, c))
TClassical == /\ IsOp("classical") /\ Keep
              /\ ReportAll(Ok \cup GridOf(Ev.ps, Ev.c) \cup Clause("count-by-area", Ev.out = "ok" => Ev.d = Counts(Ev.ps, Ev.c)), 0)
TBounds == /\ IsOp("bounds") /\ Keep
           /\ ReportAll(Ok \cup Clause("bounding-box", Ev.out = "ok" => Ev.box = Bounds(Ev.ps, Ev.dim)), Bounds(Ev.ps, Ev.dim))
Grid(xs, ys) == [k \in 1..(Len(xs) * Len(ys)) |-> <<xs[((k - 1) \div Len(ys)) + 1], ys[((k - 1) % Len(ys)) + 1]>>]
K == 10000
Cells(ps, c) == {<<i, j>> : i \in 1..Shape(ps, c)[1], j \in 1..Shape(ps, c)[2]}
TV1 == /\ IsOp("v1") /\ Keep
       /\ LET ps == Grid(Ev.xs, Ev.ys)  lo == Low(ps, Ev.c)  n == Len(ps)
              Off(x) == AbsI(Ev.d[x[1]][x[2]] - Voronoi1(Ev.xs, Ev.ys, Ev.c, lo[1] + x[1] - 1, lo[2] + x[2] - 1, K)) > n + 2
          IN ReportAll(Ok \cup GridOf(ps, Ev.c)
                       \cup Clause("shares-of-voronoi-cells", Ev.out = "ok" => Ev.shape = Shape(ps, Ev.c) /\ {x \in Cells(ps, Ev.c) : Off(x)} = {}), 0)
TV2 == /\ IsOp("v2") /\ Keep
       /\ LET ps == Grid(Ev.xs, Ev.ys)  lo == Low(ps, Ev.c)
              Wrong(x) == LET S == InCell(Ev.xs, Ev.ys, Ev.c, <<lo[1] + x[1] - 1, lo[2] + x[2] - 1>>)  r == Ev.d[x[1]][x[2]] IN
                          IF S = {} THEN r # 0
                          ELSE IF \A a \in S : Inner(Ev.xs, Ev.ys, a) THEN LET A == AreaOf(Ev.xs, Ev.ys, S) IN AbsI(r * A - Cardinality(S) * 100000) > A
                          ELSE Ev.pos[x[1]][x[2]] # 1
          IN ReportAll(Ok \cup GridOf(ps, Ev.c)
                       \cup Clause("agents-by-their-area", Ev.out = "ok" => Ev.shape = Shape(ps, Ev.c) /\ {x \in Cells(ps, Ev.c) : Wrong(x)} = {}), 0)
\* agents anywhere: nobody is lost or counted twice
TSum == /\ IsOp("sum") /\ Keep
        /\ ReportAll(Ok \cup GridOf(Ev.ps, Ev.c)
                     \cup Clause("every-agent-counts-once", Ev.out = "ok" => AbsI(Ev.total - 10000 * Len(Ev.ps)) <= 20)
                     \cup Clause("no-negative-density", Ev.out = "ok" => Ev.min >= 0)
                     \cup Clause("any-unit-of-length", Ev.out = "ok" => \A i \in 1..3 : Ev.units[i])
                     \cup Clause("wherever-the-crowd-is", Ev.out = "ok" => \A i \in 1..2 : Ev.moved[i])
                     \cup Clause("order-of-agents", Ev.out = "ok" => \A i \in 1..3 : Ev.order[i])
                     \cup Clause("zero-without-agents", Ev.out = "ok" => \A i \in 1..Ev.shape[1], j \in 1..Ev.shape[2] :
                                    (Ev.zero2[i][j] = 1) = (Count(Ev.ps, Ev.c, <<Low(Ev.ps, Ev.c)[1] + i - 1, Low(Ev.ps, Ev.c)[2] + j - 1>>) = 0)), Len(Ev.ps))
Known == {"classical", "bounds", "v1", "v2", "sum"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TClassical \/ TBounds \/ TV1 \/ TV2 \/ TSum \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
