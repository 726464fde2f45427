---------------------------- MODULE VectorsTrace ----------------------------
EXTENDS Vectors, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED <<st, act>>
Ok == Clause("accepted", Ev.out = "ok")
Fine == Ev.out = "ok"
\* one vector
TVector == /\ IsOp("vector")
           /\ LET v == Ev.v IN
              ReportAll(Ok \cup Clause("quarter-turn", Fine => Ev.r90 = Rot90(v) /\ Ev.r270 = Rot270(v))
                        \cup Clause("argument-untouched", Fine => Ev.after = v)
                        \cup Clause("length", Fine => Abs(Ev.len * Ev.len - 10000 * Len2(v)) <= Ev.len + 1)
                        \cup Clause("normalized", Fine => IF v = <<0, 0>> THEN Ev.unit = <<0, 0>> ELSE IsUnit(Ev.unit, v))
                        \cup Clause("angle", Fine => Abs(Ev.phi) <= 1000000 /\ (v = <<0, 0>> \/ IsUnit(Ev.dir, v)) /\ (v[2] > 0 => Ev.phi > 0) /\ (v[2] < 0 => Ev.phi < 0)), v)
\* columns of vectors: every row on its own
TRows == /\ IsOp("rows")
         /\ ReportAll(Ok \cup Clause("row-by-row", Fine => /\ \A i \in DOMAIN Ev.a : /\ Ev.dot[i] = Dot(Ev.a[i], Ev.b[i]) /\ Ev.cross[i] = Cross(Ev.a[i], Ev.b[i])
                                                                                   /\ Abs(Ev.len[i] * Ev.len[i] - 10000 * Len2(Ev.a[i])) <= Ev.len[i] + 1
                                                                                   /\ (Ev.a[i] = <<0, 0>> \/ IsUnit(Ev.dir[i], Ev.a[i]))
                                                              /\ Len(Ev.dot) = Len(Ev.a) /\ Len(Ev.len) = Len(Ev.a)), Ev.a)
TPair == /\ IsOp("pair")
         /\ ReportAll(Ok \cup Clause("products", Fine => Ev.dot = Dot(Ev.a, Ev.b) /\ Ev.cross = Cross(Ev.a, Ev.b)), <<Dot(Ev.a, Ev.b), Cross(Ev.a, Ev.b)>>)
\* limit l in quarters; result in 1/500
TTruncate == /\ IsOp("truncate")
             /\ LET v == Ev.v  l2 == Ev.l * Ev.l IN
                ReportAll(Ok \cup Clause("truncated-in-place", Fine =>
                    IF 16 * Len2(v) <= l2 THEN Ev.res = <<500 * v[1], 500 * v[2]>>
                    ELSE /\ Abs(Cross(v, Ev.res)) <= Abs(v[1]) + Abs(v[2]) /\ Dot(v, Ev.res) > 0
                         /\ Abs(Len2(Ev.res) - 15625 * l2) <= 250 * Ev.l + 2), v)
\* angles: n sixteenths of a turn; result in 1/1000 of these
TWrap == /\ IsOp("wrap")
         /\ LET w == Wrap(Ev.n) IN
            ReportAll(Ok \cup Clause("wrapped", Fine => /\ Abs(Ev.res) <= 8000
                                                        /\ IF ExactHalf(Ev.n) THEN Ev.res = 1000 * w ELSE IF Abs(w) = 8 THEN Abs(Ev.res) = 8000 ELSE Ev.res = 1000 * w)
                      \cup Clause("within-pi", Fine => Ev.inside), w)
TUnit == /\ IsOp("unit")
         /\ ReportAll(Ok \cup Clause("unit-vectors", Fine => Len(Ev.res) = Len(Ev.ns) /\ \A i \in DOMAIN Ev.ns : Abs(Ev.res[i][1] - Cos16(Ev.ns[i])) <= 1 /\ Abs(Ev.res[i][2] - Sin16(Ev.ns[i])) <= 1), Ev.ns)
\* weight in sixteenths
TAverage == /\ IsOp("average")
            /\ ReportAll(Ok \cup Clause("weighted", Fine => Len(Ev.res) = Len(Ev.a) /\ \A i \in DOMAIN Ev.a : \A k \in 1..2 : Ev.res[i][k] = Ev.w * Ev.a[i][k] + (16 - Ev.w) * Ev.b[i][k]), Ev.w)
\* time in 1/1000, none is -1; kept small so that products fit
TMeet == /\ IsOp("meet")
         /\ LET meets == Meets(Ev.c, Ev.v, Ev.r)  a == CoefA(Ev.v)  b == CoefB(Ev.c, Ev.v)  s == ISqrt(Disc(Ev.c, Ev.v, Ev.r)) IN
            ReportAll(Ok \cup Clause("meets-or-not", Fine => (Ev.t >= 0) = meets)
                      \cup Clause("no-force-without-meeting", Fine /\ ~meets => Ev.grad0)
                      \cup Clause("first-contact", Fine /\ meets /\ Ev.t >= 0 =>
                             Ev.t * a <= 1000 * (b - s) + a /\ Ev.t * a >= 1000 * (b - s - (IF s * s = Disc(Ev.c, Ev.v, Ev.r) THEN 0 ELSE 1)) - a)
                      \* the gradient: along the line of centres at contact, one per unit of velocity (its sign is the convention of the force)
                      \cup Clause("gradient", Fine /\ meets /\ Ev.t >= 0 => /\ Abs(Abs(Ev.gv) - 1000) <= 1
                             /\ (s * s = Disc(Ev.c, Ev.v, Ev.r) => LET w == <<a * Ev.c[1] + (b - s) * Ev.v[1], a * Ev.c[2] + (b - s) * Ev.v[2]>> IN
                                    Abs(Cross(Ev.grad, w)) <= Abs(w[1]) + Abs(w[2]) + 1 /\ Dot(Ev.grad, w) # 0)), IF meets THEN <<a, b, s>> ELSE <<>>)
\* potential and magnitude at tau = p/4, tau0 = q/4, in 1/10000: E = k/tau^2 e, F = (2/tau + 1/tau0)/tau^2 e
TSocial == /\ IsOp("social")
           /\ ReportAll(Ok \cup Clause("force-is-slope-of-potential", Fine => Abs(Ev.k * Ev.mag * Ev.p * Ev.q - Ev.pot * 4 * (2 * Ev.q + Ev.p)) <= Ev.k * Ev.p * Ev.q + 4 * (2 * Ev.q + Ev.p))
                     \cup Clause("dies-out", Fine => Ev.pot >= Ev.later /\ Ev.later >= 0)
                     \cup Clause("value", Fine /\ Ev.p = Ev.q => Abs(Ev.pot * Ev.p * Ev.p - Ev.k * 58861) <= Ev.p * Ev.p), Ev.k)
Known == {"vector", "rows", "pair", "truncate", "wrap", "unit", "average", "meet", "social"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TVector \/ TRows \/ TPair \/ TTruncate \/ TWrap \/ TUnit \/ TAverage \/ TMeet \/ TSocial \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
