----------------------------- MODULE MotionTrace -----------------------------
EXTENDS Motion, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Near(a, b, tol) == Abs(a - b) <= tol
NearV(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
Ops == {"dt", "verlet", "euler", "begin", "reset", "adjusting", "orientation", "integrator", "fluctuation", "cycle"}
Moves == {"verlet", "euler", "begin", "integrator", "cycle"}
Slack(g, h) == 8 + (IF Ev.exact THEN 0 ELSE (MaxAbs(h.v) + Max(Abs(h.w), MaxAbs(g.f) \div 2^g.m2 + MaxAbs(g.fp) \div 2^g.m2)
                                             + Abs(g.t) \div 2^g.i2 + Abs(g.tp) \div 2^g.i2) \div 4096)
\* the model's successor of agent g, given what was observed (h) where the design leaves it open
Expect(g, h) ==
  CASE Ev.op = "dt" -> g
    [] Ev.op \in {"verlet", "integrator"} -> Verlet(g, Ev.dq)
    [] Ev.op = "euler" -> Euler(g, Ev.dq)
    [] Ev.op = "begin" -> Begin(g, Ev.dq)
    [] Ev.op = "reset" -> Reset(g)
    [] Ev.op = "adjusting" -> Adjust(g)
    [] Ev.op = "orientation" -> IF g.three THEN [g EXCEPT !.phi0 = h.phi0] ELSE g
    [] Ev.op = "fluctuation" -> [g EXCEPT !.f = h.f, !.t = IF g.three THEN h.t ELSE @]
    [] Ev.op = "cycle" -> LET a == IF g.three THEN [g EXCEPT !.phi0 = h.phi0] ELSE g IN Reset(Verlet(Adjust(a), Ev.dq))
Turns == {"orientation", "cycle"}
AgentClauses(g, h) ==
  LET e == Expect(g, h)  tol == Slack(g, h) + (IF Ev.op \in {"adjusting", "cycle"} THEN 4 * 2^(Max(g.m2 + g.ta, g.i2 + g.tr)) ELSE 0)
  IN      Clause("position", NearV(h.x, e.x, tol))
     \cup Clause("velocity", NearV(h.v, e.v, tol))
     \cup Clause("force", NearV(h.f, e.f, tol))
     \cup Clause("previous-force", NearV(h.fp, e.fp, tol))
     \cup Clause("orientation", ~g.three \/ (SameAngle(h.phi, e.phi, tol) /\ Abs(h.phi) <= Max(U, Abs(g.phi)) /\ (Ev.op \in Moves => Abs(h.phi) <= U)))
     \cup Clause("angular-velocity", ~g.three \/ Near(h.w, e.w, tol))
     \cup Clause("torque", ~g.three \/ (Near(h.t, e.t, tol) /\ Near(h.tp, e.tp, tol)))
     \cup Clause("target-orientation", ~g.three \/ (IF Ev.op \in Turns THEN IsAngleOf(h.phi0, g.e0) ELSE h.phi0 = g.phi0))
     \cup Clause("shoulders", ~g.three \/ (IF Ev.op \in Moves
            THEN LET s == <<(Sin(h.phi) * g.ts) \div 1024, -((Cos(h.phi) * g.ts) \div 1024)>> IN NearV(h.rs, Add(h.x, s), 24) /\ NearV(h.ls, Sub(h.x, s), 24)
            ELSE h.rs = g.rs /\ h.ls = g.ls))
     \cup Clause("fluctuation", Ev.op # "fluctuation" \/ LET d == Sub(h.f, g.f) IN
            /\ (g.sf = 0 => d = <<0, 0>>) /\ MaxAbs(d) <= Shift(3 * g.sf * (U \div 4), g.m2) + 2
            /\ (MaxAbs(d) \div 256 < 30000 => Sq(d[1] \div 256) + Sq(d[2] \div 256) <= Sq(Shift(3 * g.sf * (U \div 4), g.m2) \div 256 + 2))
            /\ (g.three => (g.st = 0 => h.t = g.t) /\ Abs(h.t - g.t) <= Shift((3 * g.st * 5216) \div 4, g.i2) + 2))   \* 1/pi in 1/U
TMotion == /\ More /\ Ev.op \in Ops /\ KitNext
           /\ ReportAll(Clause("accepted", Ev.out = "ok") \cup Clause("rest-unchanged", Ev.rest)
                   \cup (IF Ev.out # "ok" THEN {} ELSE
                           Clause("time-step", Ev.op \notin (Moves \cup {"dt"}) \/ StepOk(Ev.g, Ev.lo, Ev.hi, Ev.dq))
                      \cup Clause("clock", Ev.op \notin {"integrator", "cycle"} \/ Near(Ev.clock[2], Ev.clock[1] + Ev.dq, 1))
                      \cup Clause("recorded-step", Ev.op \notin {"integrator", "cycle"} \/ Ev.dts)
                      \cup Clause("random-directions", Ev.op # "fluctuation" \/ Len(Ev.g) < 6 \/ Ev.g[1].sf = 0
                                  \/ Cardinality({Ev.h[k].f : k \in DOMAIN Ev.h}) > 3)
                      \cup Clause("random-everywhere", Ev.op # "fluctuation" \/ Len(Ev.g) < 60 \/ LET d(k) == Sub(Ev.h[k].f, Ev.g[k].f) IN
                             \* a large crowd is pushed in all directions, by about sigma m
                             /\ \A s, t \in {-1, 1} : \E k \in DOMAIN Ev.g : s * d(k)[1] > 0 /\ t * d(k)[2] > 0
                             /\ \E k \in DOMAIN Ev.g : 2 * MaxAbs(d(k)) > Shift(Ev.g[k].sf * (U \div 4), Ev.g[k].m2)
                             \* every one of them, active or not; on average by about 0.8 sigma m
                             /\ Cardinality({k \in DOMAIN Ev.g : d(k) = <<0, 0>>}) <= Len(Ev.g) \div 16
                             /\ (Ev.g[1].three => Cardinality({k \in DOMAIN Ev.g : Ev.h[k].t = Ev.g[k].t}) <= Len(Ev.g) \div 16)
                             /\ LET unit == Shift(Ev.g[1].sf * (U \div 4), Ev.g[1].m2) \div 100
                                    mean == SumTo([k \in DOMAIN Ev.g |-> Root(Sq(d(k)[1] \div 256) + Sq(d(k)[2] \div 256)) \div 16], Len(Ev.g)) \div Len(Ev.g)
                                IN mean * 16 * 256 >= 50 * unit /\ mean * 16 * 256 <= 115 * unit
                             /\ (Ev.g[1].three => LET unit == Shift((Ev.g[1].st * 5216) \div 4, Ev.g[1].i2) \div 100
                                                      mean == SumTo([k \in DOMAIN Ev.g |-> Abs(Ev.h[k].t - Ev.g[k].t) \div 16], Len(Ev.g)) \div Len(Ev.g)
                                                  IN mean * 16 >= 50 * unit /\ mean * 16 <= 115 * unit)
                             /\ \A s \in {-1, 1} : Ev.g[1].three => \E k \in DOMAIN Ev.g : s * (Ev.h[k].t - Ev.g[k].t) > Shift((Ev.g[k].st * 5216) \div 8, Ev.g[k].i2))
                      \cup UNION {AgentClauses(Ev.g[k], Ev.h[k]) : k \in DOMAIN Ev.g}),
                   [k \in DOMAIN Ev.g |-> IF Ev.out = "ok" THEN Expect(Ev.g[k], Ev.h[k]) ELSE 0])
           /\ UNCHANGED <<st, act>>
\* vectors of other functions of the motion layer on arbitrary arguments
TOther == More /\ Ev.op \notin Ops /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TMotion \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
