----------------------------- MODULE SamplingTrace -----------------------------
EXTENDS Sampling, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED <<st, act>>
Then(cs) == ReportAll(Clause("accepted", Ev.out = "ok") \cup (IF Ev.out = "ok" THEN cs ELSE {}), 0)
K == Ev.scale
RECURSIVE SumOf(_, _, _)
SumOf(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a] ELSE LET m == (a + b) \div 2 IN SumOf(f, a, m) + SumOf(f, m + 1, b)
Sum(f, n) == SumOf(f, 1, n)
SegLen(v, k) == Root(10000 * Len2(Sub(v[k], v[k + 1])))

TArea == IsOp("area") /\ Then(Clause("area", Ev.res = (IF Len(Ev.v) < 3 THEN 0 ELSE Abs(Area2(Ev.v)))))
TAreas == /\ IsOp("areas")
          /\ Then(LET a == [k \in DOMAIN Ev.ts |-> Abs(Area2(Ev.ts[k]))] IN Clause("cumulative-areas", Ev.res = [k \in DOMAIN Ev.ts |-> Sum(a, k)]))
TLengths == /\ IsOp("lengths")
            /\ Then(LET a == [k \in 1..(Len(Ev.v) - 1) |-> SegLen(Ev.v, k)] IN
                    Clause("cumulative-lengths", Len(Ev.res) = Len(Ev.v) - 1 /\ \A k \in DOMAIN Ev.res : Abs(Ev.res[k] - Sum(a, k)) <= 2 * k))
TString == /\ IsOp("linestring")
           /\ Then(LET v == Scale(Ev.v, K)  n == Len(v) - 1  ls == [k \in 1..n |-> SegLen(Ev.v, k)]  total == Sum(ls, n) IN
                   Clause("on-the-line", \A i \in DOMAIN Ev.xs : \E k \in 1..n : OnSegment(Ev.xs[i], v[k], v[k + 1], 1))
                   \cup Clause("uniform-on-the-line", \A k \in 1..n : \A h \in {1, 2} :     \* segments and their first halves
                         LET On(x) == v[k][1] < x[1] /\ h * (x[1] - v[k][1]) < v[k + 1][1] - v[k][1]
                             Near(x) == v[k][1] - 1 <= x[1] /\ h * (x[1] - 1 - v[k][1]) <= v[k + 1][1] - v[k][1]
                         IN SharesFitIn(Count(On, Ev.xs), Count(Near, Ev.xs), Len(Ev.xs), ls[k] \div h, total)))
TTriangle == /\ IsOp("triangle")
             /\ Then(LET t0 == Scale(Ev.t, K)  t == IF Area2(t0) > 0 THEN t0 ELSE <<t0[1], t0[3], t0[2]>> IN
                     Clause("inside", \A i \in DOMAIN Ev.xs : InConvex(Ev.xs[i], t, 1))
                     \cup Clause("uniform-in-the-triangle", \A s \in Quarters(t) : UniformIn(Ev.xs, s, Area2(t))))
\* into the corners, too
TCorners == /\ IsOp("corners")
            /\ Then(LET t0 == Scale(Ev.t, K)  t == IF Area2(t0) > 0 THEN t0 ELSE <<t0[1], t0[3], t0[2]>> IN
                    Clause("reaches-the-corners", \A s \in Corners(t) : LET In(x) == InConvex(x, s, -1)  Near(x) == InConvex(x, s, 1) IN
                        SharesFitIn(Count(In, Ev.xs), Count(Near, Ev.xs), Len(Ev.xs), 1, 64)))
Polygonal == LET h == Hull({Scale(Ev.v, K)[i] : i \in DOMAIN Ev.v}) IN
   Clause("inside", \A i \in DOMAIN Ev.xs : InConvex(Ev.xs[i], h, 1))
   \cup Clause("uniform-in-the-polygon", \A r \in DOMAIN h : LET f == Fan(h, r) IN \A k \in DOMAIN f :
           /\ UniformIn(Ev.xs, f[k], Area2(h))
           /\ r = 1 => \A s \in Quarters(f[k]) : UniformIn(Ev.xs, s, Area2(h)))
TPolygon == IsOp("polygon") /\ Then(Polygonal)
TSpawn == IsOp("spawn") /\ Then(Polygonal \cup Clause("rest-unchanged", Ev.rest))
TVector == /\ IsOp("vector")
           /\ Then(Clause("length", \A i \in DOMAIN Ev.xs : Abs(Root(Len2(Ev.xs[i])) - Ev.mag) <= 2)
                   \* quarter circles from quarter Ev.from on, Ev.quarters of them
                   \cup Clause("direction", Len(Ev.xs) = Ev.n /\ \A i \in DOMAIN Ev.xs : \E s \in 0..(Ev.quarters - 1) : LET z == Ev.xs[i]  a == (Ev.from + s) % 4 IN
                             CASE a = 0 -> z[1] >= -1 /\ z[2] >= -1 [] a = 1 -> z[1] <= 1 /\ z[2] >= -1 [] a = 2 -> z[1] <= 1 /\ z[2] <= 1 [] OTHER -> z[1] >= -1 /\ z[2] <= 1)
                   \cup Clause("evenly", Len(Ev.xs) > 1 => \A s \in 0..(Ev.quarters - 1), w \in 1..4 :
                             LET In(x) == InSlice(x, (Ev.from + s) % 4, w) IN SharesFit(Count(In, Ev.xs), Ev.n, 1, 4 * Ev.quarters)))
\* arrival times of a Poisson process: increasing, before the end, n windows hold rate * n on average, memoryless
TClock == /\ IsOp("clock")
          /\ Then(Clause("within-the-window", \A i \in DOMAIN Ev.ts : LET t == Ev.ts[i] IN \A k \in DOMAIN t : 0 <= t[k] /\ t[k] <= 10000 /\ (k > 1 => t[k - 1] <= t[k]))
                  \cup LET all == [i \in DOMAIN Ev.ts |-> Len(Ev.ts[i])]  n == Sum(all, Len(all))
                           half == [i \in DOMAIN Ev.ts |-> Cardinality({k \in DOMAIN Ev.ts[i] : Ev.ts[i][k] < 5000})]
                           none == Cardinality({i \in DOMAIN Ev.ts : Ev.ts[i] = <<>>})  m == Len(Ev.ts)  want == (m * Ev.rate) \div Ev.den
                       IN Clause("rate", Sq(n - want) <= 36 * (want + 10))
                          \cup Clause("memoryless", SharesFit(Sum(half, Len(half)), n, 1, 2)
                                 \* exp(-1) = 0.3679, exp(-2) = 0.1353, exp(-4) = 0.0183, exp(-1/2) = 0.6065, exp(-1/4) = 0.7788
                                 /\ SharesFit(none, m, CASE Ev.den = 2 -> 6065 [] Ev.den = 4 -> 7788 [] Ev.rate = 1 -> 3679 [] Ev.rate = 2 -> 1353 [] OTHER -> 183, 10000)))
TTimings == /\ IsOp("timings")
            /\ Then(Clause("only-players", \A i \in DOMAIN Ev.rs : \A k \in DOMAIN Ev.rs[i] : \E p \in DOMAIN Ev.players : Ev.players[p] = Ev.rs[i][k])
                    \cup LET cnt(p) == LET c == [i \in DOMAIN Ev.rs |-> Cardinality({k \in DOMAIN Ev.rs[i] : Ev.rs[i][k] = p})] IN Sum(c, Len(c))
                             want == Len(Ev.rs) * Ev.rate
                             \* earlier of two players: by symmetry half of the runs where the first event is one of theirs
                             firsts == SelectSeq(Ev.rs, LAMBDA r : r # <<>>)
                         IN Clause("rate", \A p \in DOMAIN Ev.players : Sq(cnt(Ev.players[p]) - want) <= 36 * (want + 10))
                            \cup Clause("in-order-of-time", \A p \in DOMAIN Ev.players : LET First(r) == r[1] = Ev.players[p]  Last(r) == r[Len(r)] = Ev.players[p] IN
                                   SharesFit(Count(First, firsts), Len(firsts), 1, Len(Ev.players)) /\ SharesFit(Count(Last, firsts), Len(firsts), 1, Len(Ev.players)))
                            \* events of different players interleave: the second one is another player's as often as not by chance
                            \cup Clause("interleaved", LET two == SelectSeq(Ev.rs, LAMBDA r : Len(r) >= 2)  Other(r) == r[1] # r[2]  n == Len(Ev.players) IN
                                   SharesFit(Count(Other, two), Len(two), n - 1, n))
                            \cup Clause("interleaved-throughout", LET n == Len(Ev.players)
                                      m == [i \in DOMAIN Ev.rs |-> IF Ev.rs[i] = <<>> THEN 0 ELSE Len(Ev.rs[i]) - 1]
                                      c == [i \in DOMAIN Ev.rs |-> Cardinality({k \in 1..m[i] : Ev.rs[i][k] # Ev.rs[i][k + 1]})] IN
                                   SharesFit(Sum(c, Len(c)), Sum(m, Len(m)), n - 1, n)))
TTrunc == /\ IsOp("truncnorm")
          /\ Then(LET zs == [i \in DOMAIN Ev.xs |-> (Ev.xs[i] - 1000 * Ev.loc) \div Ev.sd] IN
                  Clause("within-its-ends", Len(zs) = Ev.n /\ TruncatedIn(zs, Ev.a, Ev.b)) \cup Clause("normal", TruncatedNormal(zs, Ev.a, Ev.b)))
\* random forces: uniform direction, half of a normal distribution cut at three deviations; torques: both sides
TForce == /\ IsOp("force")
          /\ Then(LET zs == [i \in DOMAIN Ev.xs |-> (1000 * Root(Len2(Ev.xs[i]))) \div (1024 * Ev.ms[i] * Ev.sds[i])] IN
                  Clause("within-its-ends", Len(zs) = Len(Ev.ms) /\ TruncatedIn(zs, 0, 12)) \cup Clause("normal", TruncatedNormal(zs, 0, 12))
                  \cup Clause("any-direction", \A q \in 0..3, w \in 1..4 : LET In(x) == InSlice(x, q, w) IN SharesFit(Count(In, Ev.xs), Len(Ev.xs), 1, 16)))
TTorque == /\ IsOp("torque")
           /\ Then(LET zs == [i \in DOMAIN Ev.xs |-> (1000 * Ev.xs[i]) \div (1024 * Ev.ms[i] * Ev.sds[i])] IN
                  Clause("within-its-ends", Len(zs) = Len(Ev.ms) /\ TruncatedIn(zs, -12, 12)) \cup Clause("normal", TruncatedNormal(zs, -12, 12)))
\* crowds of few: noise of the first and the last agent of each, independent of each other
Quadrant(x) == IF x[1] >= 0 THEN IF x[2] >= 0 THEN 0 ELSE 3 ELSE IF x[2] >= 0 THEN 1 ELSE 2
TFew == /\ IsOp("few")
        /\ Then(Clause("any-direction", \A q \in 0..3 : LET F(x) == Quadrant(x[1]) = q  L(x) == Quadrant(x[2]) = q IN SharesFit(Count(F, Ev.xs), Len(Ev.xs), 1, 4) /\ SharesFit(Count(L, Ev.xs), Len(Ev.xs), 1, 4))
                \cup Clause("one-agent-tells-nothing-about-another", Ev.size > 1 =>
                      LET Same(x) == Quadrant(x[1]) = Quadrant(x[2])  More1(x) == Len2(x[1]) > Len2(x[2])  n == Len(Ev.xs) IN
                      SharesFit(Count(Same, Ev.xs), n, 1, 4) /\ SharesFit(Count(More1, Ev.xs), n, 1, 2))
                \cup Clause("torques-on-both-sides", LET Left(x) == x[1] > 0  Same(x) == (x[1] > 0) = (x[2] > 0)  n == Len(Ev.ts) IN
                      SharesFit(Count(Left, Ev.ts), n, 1, 2) /\ (Ev.size > 1 => SharesFit(Count(Same, Ev.ts), n, 1, 2))))
Known == {"few", "corners", "area", "areas", "lengths", "linestring", "triangle", "polygon", "spawn", "vector", "clock", "timings", "truncnorm", "force", "torque"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TArea \/ TAreas \/ TLengths \/ TString \/ TTriangle \/ TCorners \/ TFew \/ TPolygon \/ TSpawn \/ TVector \/ TClock \/ TTimings \/ TTrunc \/ TForce \/ TTorque \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
