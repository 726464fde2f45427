--------------------------- MODULE DistancesTrace ---------------------------
EXTENDS Distances, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED <<st, act>>
Fine == Ev.out = "ok"
Base == Clause("accepted", Fine) \cup Clause("arguments-untouched", Fine => Ev.kept)
TDiscs == /\ IsOp("discs")
          /\ LET a == Ev.a  b == Ev.b IN
             ReportAll(Base \cup Clause("skin-distance", Fine => IsLen(Ev.h + 100 * (a.r + b.r), Len2(Gap(a, b))))
                       \cup Clause("normal-towards-first", Fine => IsUnit(Ev.n, Gap(a, b)))
                       \cup Clause("same-from-both-sides", Fine => Ev.h2 = Ev.h /\ Ev.n2 = Neg(Ev.n)), Gap(a, b))
TBodies == /\ IsOp("bodies")
           /\ LET a == Ev.a  b == Ev.b
                  Explains(i, j) == PairOk(Ev.h, Ev.n, a[i], b[j]) IN
              ReportAll(Base \cup Clause("least-over-all-pairs", Fine => \A i \in DOMAIN a, j \in DOMAIN b : NotAbove(Ev.h, a[i], b[j]))
                        \cup Clause("of-one-pair", Fine => \E i \in DOMAIN a, j \in DOMAIN b : Explains(i, j))
                        \cup Clause("moment-arms", Fine /\ (\E i \in DOMAIN a, j \in DOMAIN b : Explains(i, j)) =>
                                \E i \in DOMAIN a, j \in DOMAIN b : Explains(i, j) /\ Arm(Ev.m0, a, i, 1, Ev.n) /\ Arm(Ev.m1, b, j, -1, Ev.n)), 0)
TWall == /\ IsOp("wall")
         /\ LET a == Ev.a  w == Ev.w IN
            ReportAll(Base \cup Clause("wall-distance", Fine => WallLen(Ev.h + 100 * a.r, a.o, w))
                      \cup Clause("normal-away-from-wall", Fine => WallNormal(Ev.n, a.o, w))
                      \cup Clause("same-wall-reversed", Fine => Abs(Ev.h2 - Ev.h) <= 1 /\ (Away(a.o, w) = <<0, 0>> \/ (Abs(Ev.n2[1] - Ev.n[1]) <= 1 /\ Abs(Ev.n2[2] - Ev.n[2]) <= 1))), <<Where(a.o, w), Away(a.o, w)>>)
TBodyWall == /\ IsOp("bodywall")
             /\ LET a == Ev.a  w == Ev.w
                    Explains(i) == WallOk(Ev.h, Ev.n, a[i], w) IN
                ReportAll(Base \cup Clause("least-over-all-parts", Fine => \A i \in DOMAIN a : WallNotAbove(Ev.h, a[i], w))
                          \cup Clause("of-one-part", Fine => \E i \in DOMAIN a : Explains(i))
                          \cup Clause("moment-arm", Fine /\ (\E i \in DOMAIN a : Explains(i)) => \E i \in DOMAIN a : Explains(i) /\ Arm(Ev.m, a, i, -1, Ev.n)), 0)
Known == {"discs", "bodies", "wall", "bodywall"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TDiscs \/ TBodies \/ TWall \/ TBodyWall \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
