------------------------------- MODULE Motion -------------------------------
(* Motion of agents: driving force and torque, adaptive time step, integration, clock.
   Lengths, velocities and forces are counted in 1/U, angles and angular velocities in pi/U, times in 1/8192 s.
   Mass, inertia and inverse relaxation times are powers of two (m2, i2, ta, tr), so every step is sums and shifts.
   An agent: [x, v, f, fp : vectors, phi, w, t, tp, phi0 : angles, v0 : target speed (1/4), e0 : target direction (1/16),
              m2, i2, ta, tr, w0 : target angular velocity (pi/4), three : BOOLEAN] *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

U == 16384
Shift(a, n) == IF n >= 0 THEN a * 2^n ELSE a \div 2^(-n)
MulDt(a, dq) == ((a \div 512) * dq) \div 16 + ((a % 512) * dq) \div 8192
V2(F(_), a) == <<F(a[1]), F(a[2])>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxAbs(a) == Max(Abs(a[1]), Abs(a[2]))
Wrap(a) == LET r == a % (2 * U) IN IF r > U THEN r - 2 * U ELSE r
SameAngle(a, b, tol) == LET d == (a - b) % (2 * U) IN d <= tol \/ d >= 2 * U - tol

\* U sin(pi a / U) for any angle a: Taylor in the first quadrant, radians in 1/8192
SinQ(a) ==
  LET x == (a * 25736) \div U              \* a pi, 1/8192
      x2 == (x * x) \div 8192
      t3 == (x * x2) \div (8192 * 6)   t5 == (t3 * x2) \div (8192 * 20)   t7 == (t5 * x2) \div (8192 * 42)   t9 == (t7 * x2) \div (8192 * 72)
  IN 2 * (x - t3 + t5 - t7 + t9)
Sin(a) == LET b == a % (2 * U) IN
          IF b <= U \div 2 THEN SinQ(b) ELSE IF b <= U THEN SinQ(U - b)
          ELSE IF b <= U + U \div 2 THEN -SinQ(b - U) ELSE -SinQ(2 * U - b)
Cos(a) == Sin(a + U \div 2)
Unit(a) == <<Cos(a), Sin(a)>>

(* --- nodes --- *)
Reset(g) == [g EXCEPT !.f = <<0, 0>>, !.t = IF g.three THEN 0 ELSE @]
TargetV(g) == <<g.v0 * g.e0[1] * (U \div 64), g.v0 * g.e0[2] * (U \div 64)>>
AdjustForce(g) == LET F(c) == Shift(TargetV(g)[c] - g.v[c], g.m2 + g.ta) IN <<F(1), F(2)>>
AdjustTorque(g) == Shift((Wrap(g.phi0 - g.phi) * g.w0) \div 4 - g.w, g.i2 + g.tr)
Adjust(g) == [g EXCEPT !.f = Add(@, AdjustForce(g)), !.t = IF g.three THEN @ + AdjustTorque(g) ELSE @]
\* a is the angle of vector e: checked, not computed
IsAngleOf(a, e) == IF e = <<0, 0>> THEN a = 0
                   ELSE LET u == Unit(a) m == Abs(e[1]) + Abs(e[2]) IN Abs(Cross(u, e)) <= 12 * m /\ Dot(u, e) > 0 /\ Abs(a) <= U

(* --- integration, time step dq --- *)
Acc(f, n) == Shift(f, -n)
VelVerlet(v, fp, f, n, dq) == v + MulDt((Acc(fp, n) + Acc(f, n)) \div 2, dq)
PosStep(x, v, f, n, dq) == x + MulDt(v, dq) + MulDt(MulDt(Acc(f, n) \div 2, dq), dq)
Verlet(g, dq) ==
  LET v == <<VelVerlet(g.v[1], g.fp[1], g.f[1], g.m2, dq), VelVerlet(g.v[2], g.fp[2], g.f[2], g.m2, dq)>>
      w == VelVerlet(g.w, g.tp, g.t, g.i2, dq)
      h == [g EXCEPT !.v = v, !.fp = g.f, !.x = <<PosStep(g.x[1], v[1], g.f[1], g.m2, dq), PosStep(g.x[2], v[2], g.f[2], g.m2, dq)>>]
  IN IF g.three THEN [h EXCEPT !.w = w, !.tp = g.t, !.phi = Wrap(PosStep(g.phi, w, g.t, g.i2, dq))] ELSE h
Euler(g, dq) ==
  LET h == [g EXCEPT !.v = <<g.v[1] + MulDt(Acc(g.f[1], g.m2), dq), g.v[2] + MulDt(Acc(g.f[2], g.m2), dq)>>,
                     !.x = <<PosStep(g.x[1], g.v[1], g.f[1], g.m2, dq), PosStep(g.x[2], g.v[2], g.f[2], g.m2, dq)>>]
  IN IF g.three THEN [h EXCEPT !.w = g.w + MulDt(Acc(g.t, g.i2), dq), !.phi = Wrap(PosStep(g.phi, g.w, g.t, g.i2, dq))] ELSE h
Begin(g, dq) == LET h == Euler(g, dq) IN [h EXCEPT !.fp = g.f, !.tp = IF g.three THEN g.t ELSE @]

(* --- time step: 1.1 dt_max max v0 / max |v|, within [dt_min, dt_max]; dt in 1/8192, lo and hi too --- *)
V256(g) == Root(16 * (Sq((g.v[1] + 128) \div 256) + Sq((g.v[2] + 128) \div 256)))     \* speed in 1/256
StepOk(gs, lo, hi, dq) ==
  IF \A k \in DOMAIN gs : gs[k].v = <<0, 0>> THEN dq = hi
  ELSE LET V == MaxOf({V256(gs[k]) : k \in DOMAIN gs})  S == MaxOf({gs[k].v0 : k \in DOMAIN gs})
           \* dt = 1.1 hi (S / 4) / (V / 256), i.e. 5 dt V = 352 hi S
           R == 352 * hi * S
           tol(d) == 5 * V + 25 * d + 100
       IN \/ dq = hi /\ 5 * hi * V <= R + tol(hi)
          \/ dq = lo /\ 5 * lo * V >= R - tol(lo)
          \/ lo <= dq /\ dq <= hi /\ Abs(5 * dq * V - R) <= tol(dq)
=============================================================================
