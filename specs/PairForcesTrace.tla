-------------------------- MODULE PairForcesTrace --------------------------
EXTENDS PairForces, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
NearV(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Zero(f) == f = <<0, 0>>
Small(f) == MaxAbs(f) < 300000

\* contact force on an agent with parameters g, exact: recorded f against expected F / (hd D^2)
ContactOk(f, F, hd, D) == LET s == hd * D * D IN MaxAbs(f) < 2000000000 \div s /\ NearV(Scale(s, f), F, 2 * s)
\* torque of force f at arm (off + s r n), n = N / D
TorqueOk(t, off, r, N, D, f) ==
  LET arm == Add(Scale(D, off), Scale(r, N))  m == Abs(arm[1]) + Abs(arm[2])
  IN Small(f) /\ Abs(t) < 2000000000 \div (16 * D) => Abs(t * 16 * D - Cross(arm, f)) <= 32 * D + m

Clauses(a, b, f, g, ta, tb) ==
  LET z == Closest(a, b)  N == z.d  D == Root(Len2(N))  V == RelV(a, b)  exact == Square(Len2(N)) /\ D > 0
      touch == Touching(a, b)  coll == Colliding(a, b) # {}
      fa == Social(a, b, a, 1)  fb == Social(a, b, b, -1)
      soc == coll /\ ClearFirst(a, b)
      known == soc /\ fa.known /\ fb.known
      sum(s, o) == Add(o, s)
      three == Len(a.parts) = 3
  IN IF ~InSight(a, b) THEN Clause("out-of-sight", Zero(f) /\ Zero(g) /\ ta = 0 /\ tb = 0)
     ELSE
          \* no collision ahead, no touch: no force
          Clause("no-collision-no-force", coll \/ touch \/ (Zero(f) /\ Zero(g)))
     \cup Clause("contact", ~touch \/ coll \/ ~exact \/ ~ClearDir(a, b)
                            \/ (ContactOk(f, Contact(N, D, D - z.r, 1, V, a), 1, D) /\ ContactOk(Neg(g), Contact(N, D, D - z.r, 1, V, b), 1, D)))
     \cup Clause("social", touch \/ ~known \/ (NearV(f, fa.f, fa.tol) /\ NearV(g, fb.f, fb.tol)))
     \cup Clause("capped", touch \/ ~soc \/ ((fa.cap => Abs(Root(Len2(VDiv(f, 256))) - 2000) < 30) /\ (fb.cap => Abs(Root(Len2(VDiv(g, 256))) - 2000) < 30)))
     \cup Clause("at-most", touch \/ (Len2(VDiv(f, 256)) <= 4010000 /\ Len2(VDiv(g, 256)) <= 4010000))
     \cup Clause("along-normal", touch \/ ~soc \/ LET W == fa.n w == Abs(W[1]) + Abs(W[2]) IN
                                 (Small(f) => Abs(Cross(W, f)) <= (w * (MaxAbs(f) \div 20 + 3)) /\ Dot(W, f) >= -4 * w)
                              /\ (Small(g) => Abs(Cross(W, g)) <= (w * (MaxAbs(g) \div 20 + 3)) /\ Dot(W, g) <= 4 * w))
     \cup Clause("action-reaction", ~(a.m * a.k = b.m * b.k /\ a.tau0 = b.tau0 /\ a.mu = b.mu /\ a.kappa = b.kappa /\ a.c = b.c) \/ NearV(f, Neg(g), 2))
     \cup Clause("torque", ~three \/ ~exact \/ ~ClearPart(a, b)
                           \/ (TorqueOk(ta, a.parts[z.p].o, a.parts[z.p].r, N, D, f) /\ TorqueOk(tb, b.parts[z.q].o, -b.parts[z.q].r, N, D, g)))

TPair == /\ IsOp("pair")
         /\ ReportAll(Clause("accepted", Ev.out = "ok") \cup Clause("only-forces-change", Ev.rest)
                      \cup (IF Ev.out = "ok" THEN Clauses(Ev.a, Ev.b, Ev.f, Ev.g, Ev.ta, Ev.tb) ELSE {}), 0)
         /\ UNCHANGED <<st, act>>

(* --- obstacles: walls <<p, q>>; closest point of the wall to a disc, as N / D with skin distance hn / hd --- *)
Wall(c, r, w) ==
  LET d == Sub(w[2], w[1])  u == Sub(c, w[1])  s == Dot(u, d)  L2 == Len2(d)  L == Root(L2)  cr == Cross(d, u)
  IN IF s < 0 THEN [N |-> u, D |-> Root(Len2(u)), hn |-> Root(Len2(u)) - r, hd |-> 1, exact |-> Square(Len2(u)), h |-> Root(Len2(u) * 4096) - 64 * r]
     ELSE IF s > L2 THEN LET v == Sub(c, w[2]) IN [N |-> v, D |-> Root(Len2(v)), hn |-> Root(Len2(v)) - r, hd |-> 1, exact |-> Square(Len2(v)), h |-> Root(Len2(v) * 4096) - 64 * r]
     ELSE [N |-> Scale(Sgn(cr), <<-d[2], d[1]>>), D |-> L, hn |-> Abs(cr) - r * L, hd |-> L, exact |-> Square(L2) /\ cr # 0,
           h |-> (Abs(cr) * 64) \div Max(L, 1) - 64 * r]
\* at the ends of the wall both descriptions coincide, as long as the point is not exactly on the boundary of two regions
WallsOf(a, w) == {[p |-> p, w |-> Wall(At(a, p), a.parts[p].r, w)] : p \in DOMAIN a.parts}
TWall == /\ IsOp("wall")
         /\ LET a == Ev.a  w == Ev.w  S == WallsOf(a, w)
                z == CHOOSE y \in S : \A x \in S : y.w.h <= x.w.h
                clear == \A y \in S : y = z \/ y.w.h > z.w.h + 2
                touch == \E p \in DOMAIN a.parts : DiscMeetsSegment(At(a, p), a.parts[p].r, w[1], w[2])
                V == a.v
            IN ReportAll(Clause("accepted", Ev.out = "ok") \cup Clause("only-forces-change", Ev.rest)
                    \cup Clause("no-touch-no-force", (\E y \in S : y.w.h <= 2) \/ (Zero(Ev.f) /\ Ev.ta = 0))
                    \cup Clause("wall-contact", ~touch \/ ~clear \/ ~z.w.exact \/ z.w.D = 0
                                \/ ContactOk(Ev.f, Contact(z.w.N, z.w.D, z.w.hn, z.w.hd, V, a), z.w.hd, z.w.D))
                    \cup Clause("wall-torque", ~touch \/ ~clear \/ ~z.w.exact \/ z.w.D = 0 \/ Len(a.parts) = 1
                                \/ TorqueOk(Ev.ta, a.parts[z.p].o, -a.parts[z.p].r, z.w.N, z.w.D, Ev.f)), z)
         /\ UNCHANGED <<st, act>>

(* --- crowd: what each agent gets is the sum over everyone it can see, whatever the order and the grid --- *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
TCrowd == /\ IsOp("crowd")
          /\ LET n == Len(Ev.total)
                 of(i, c) == SumTo([k \in DOMAIN Ev.pairs |-> IF Ev.pairs[k].i = i THEN Ev.pairs[k].f[c] ELSE IF Ev.pairs[k].j = i THEN Ev.pairs[k].g[c] ELSE 0], Len(Ev.pairs))
                 \* where the result of a pair depends on how a tie between discs is broken, either will do
                 slack(i, c) == SumTo([k \in DOMAIN Ev.pairs |-> IF Ev.pairs[k].i = i THEN Abs(Ev.pairs[k].f[c] - Ev.pairs[k].f2[c])
                                                               ELSE IF Ev.pairs[k].j = i THEN Abs(Ev.pairs[k].g[c] - Ev.pairs[k].g2[c]) ELSE 0], Len(Ev.pairs))
                 touched(i) == Cardinality({k \in DOMAIN Ev.pairs : i \in {Ev.pairs[k].i, Ev.pairs[k].j}})
             IN ReportAll(Clause("accepted", Ev.out = "ok") \cup Clause("only-forces-change", Ev.rest)
                     \cup Clause("sum-of-pairs", Ev.out # "ok" \/ \A i \in 1..n : \A c \in 1..3 : Abs(Ev.total[i][c] - of(i, c)) <= touched(i) + 2 + slack(i, c))
                     \cup Clause("all-pairs", Len(Ev.pairs) = IF Ev.walls = -1 THEN (n * (n - 1)) \div 2 ELSE n * Ev.walls), [i \in 1..n |-> <<of(i, 1), of(i, 2), of(i, 3)>>])
          /\ UNCHANGED <<st, act>>
\* agents of a type that is neither circular nor three-circle are refused, not skipped or misread
TOtherType == /\ IsOp("other")
              /\ ReportAll(Clause("refused", Ev.out = "raise:InvalidType") \cup Clause("unchanged", Ev.rest), "raise:InvalidType")
              /\ UNCHANGED <<st, act>>
TOther == More /\ Ev.op \notin {"pair", "wall", "crowd", "other"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TPair \/ TWall \/ TCrowd \/ TOtherType \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
