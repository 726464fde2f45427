----------------------------- MODULE PairForces -----------------------------
(* Design of the interaction forces (crowddynamics/core/interactions.py, core/distance.py, core/motion/contact.py,
   core/motion/power_law.py).

   An agent is [x, v, parts, m, k, mu, kappa, c, tau0]: lengths and velocities in sixteenths, k in quarters, the rest integers. parts are discs
   [o, r] relative to x (one for circular agents; torso, left and right shoulder for three-circle agents).
   Forces and torques are integers in units of 1/256.

   Interaction of i and j, in sight when the skin distance h < 3 (48):
   - contact force when h < 0, along the normal n between the closest discs with damping and friction along the tangent,
   - social force along the normal at the point of the first collision that constant velocities would lead to,
     m k (2/tau + 1/tau0) exp(-tau/tau0) / tau^2 / |v.n|, at most 2000; none if there will be no collision.
   Forces are only compared where the result does not depend on how a tie is broken. *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

SIGHT == 48
Square(n) == Sq(Root(n)) = n
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Scale(k, a) == <<k * a[1], k * a[2]>>
Neg(a) == <<-a[1], -a[2]>>
Div(a, k) == IF a >= 0 THEN (a + k \div 2) \div k ELSE -((-a + k \div 2) \div k)
VDiv(a, k) == <<Div(a[1], k), Div(a[2], k)>>
MaxAbs(a) == Max(Abs(a[1]), Abs(a[2]))

At(a, p) == Add(a.x, a.parts[p].o)
\* all pairs of discs, with displacement j -> i and total radius
Discs(a, b) == {[p |-> p, q |-> q, d |-> Sub(At(a, p), At(b, q)), r |-> a.parts[p].r + b.parts[q].r] :
                p \in DOMAIN a.parts, q \in DOMAIN b.parts}
\* skin distance in 1/64 of a unit, rounded down
H64(z) == Root(Len2(z.d) * 4096) - 64 * z.r
InSight(a, b) == \E z \in Discs(a, b) : Len2(z.d) < Sq(SIGHT + z.r)
Touching(a, b) == \E z \in Discs(a, b) : Len2(z.d) < Sq(z.r)
Closest(a, b) == LET S == Discs(a, b) IN CHOOSE z \in S : \A y \in S : H64(z) <= H64(y)
\* the closest pair does not depend on rounding or order; strictly: not even on which discs it is
ClearDir(a, b) == LET z == Closest(a, b) IN \A y \in Discs(a, b) : (y.d = z.d /\ y.r = z.r) \/ H64(y) > H64(z) + 2
ClearPart(a, b) == LET z == Closest(a, b) IN \A y \in Discs(a, b) : y = z \/ H64(y) > H64(z) + 2

(* --- contact: normal N/D, skin distance hn / hd; V relative velocity; result times hd D^2 --- *)
Contact(N, D, hn, hd, V, g) ==
  LET T == <<N[2], -N[1]>> IN
  Add(Add(Scale(-hn * 16 * g.mu * D, N), Scale(hn * g.kappa * Dot(V, T), T)), Scale(16 * hd * g.c * Dot(V, N), N))

(* --- social --- *)
Exp30(num, den) ==     \* 30000 exp(-num/den), num/den <= 8
  LET y == (num * 1875) \div den                        \* x / 16 in 1/30000
      y2 == (y * y) \div 30000   y3 == (y2 * y) \div 30000  y4 == (y3 * y) \div 30000
      e1 == 30000 - y + y2 \div 2 - y3 \div 6 + y4 \div 24
      s(a) == (a * a) \div 30000
  IN s(s(s(s(e1))))
RelV(a, b) == Sub(a.v, b.v)
Quad(z, V) == [A |-> Len2(V), B |-> -Dot(z.d, V), C |-> Len2(z.d) - Sq(z.r)]
Disc(q) == Sq(q.B) - q.A * q.C
Collides(z, V) == LET q == Quad(z, V) IN q.A > 0 /\ q.B > 0 /\ q.C > 0 /\ Disc(q) > 0
Colliding(a, b) == {z \in Discs(a, b) : Collides(z, RelV(a, b))}
Time(z, V) == LET q == Quad(z, V) IN q.B - Root(Disc(q))           \* tau * A, up to 1
First(a, b) == LET V == RelV(a, b)  S == Colliding(a, b) IN CHOOSE z \in S : \A y \in S : Time(z, V) <= Time(y, V)
ClearFirst(a, b) == LET V == RelV(a, b)  z == First(a, b) IN
                    /\ \A y \in Colliding(a, b) : (y.d = z.d /\ y.r = z.r) \/ Time(y, V) > Time(z, V) + 2
                    \* and no pair of discs is so close to a grazing or present contact that rounding decides
                    /\ Square(Disc(Quad(z, V))) \/ (Time(z, V) >= 40 /\ Root(Disc(Quad(z, V))) >= 40)
\* num * 10^digits \div den, den < 2 * 10^8
RECURSIVE LongDiv(_, _, _)
RECURSIVE LongRem(_, _, _)
LongDiv(num, den, digits) == IF digits = 0 THEN num \div den
                             ELSE 10 * LongDiv(num, den, digits - 1) + ((LongRem(num, den, digits - 1) * 10) \div den)
LongRem(num, den, digits) == IF digits = 0 THEN num % den ELSE (LongRem(num, den, digits - 1) * 10) % den
\* a collision more than four seconds ahead: the same with more digits. As far as the time is exact.
Far(q, D, W, Y, t, g, three) ==
  LET M == 2000000000 \div t + 1000000 \div g.tau0                \* 2/tau + 1/tau0 in millionths
      M2 == LongDiv(M * 1000, Sq(t \div 10), 3)                    \* ... / tau^2, in 1e-8
      E == IF t > 8000 * g.tau0 THEN 0 ELSE Exp30(t, 1000 * g.tau0)
      ME == IF M2 < 60000 THEN (M2 * E) \div 30000 ELSE ((M2 \div 1000) * E) \div 30
      big == MaxAbs(Y)
      fits == t <= (IF three THEN 40000 ELSE 29000) /\ Square(Disc(q)) /\ t * q.A = 1000 * (q.B - D)
              /\ big \div 100 + 1 < 2000000000 \div Max(M2, 1) /\ big > 1000
      f == VDiv(Scale(ME, VDiv(Y, 100)), 1000000)
  IN IF ~fits THEN [known |-> FALSE, cap |-> FALSE, f |-> <<0, 0>>, tol |-> 0, n |-> W]
     ELSE [known |-> TRUE, cap |-> FALSE, f |-> f, tol |-> MaxAbs(f) \div 40 + (((big \div 100) * M2) \div 1000000) \div 5000 + 4, n |-> W]
\* [known, f, tol]: social force on an agent with parameters g along sign * normal
Social(a, b, g, sign) ==
  LET V == RelV(a, b)  z == First(a, b)  q == Quad(z, V)  D == Root(Disc(q))
      W == VDiv(Scale(64, Add(Scale(q.A, z.d), Scale(q.B - D, V))), q.A)     \* normal * radius, in 1/64 of a unit
      Y == VDiv(Scale(16 * sign * g.m * g.k, W), D)                          \* force for magnitude 1
      t == ((q.B - D) * 1000) \div q.A                                       \* tau in thousandths
      M == (2000000 \div Max(t, 1)) + (1000 \div g.tau0)                     \* 2/tau + 1/tau0 in thousandths
      T2 == Max((t * t) \div 100, 1)
      M2 == IF M < 2000 THEN (M * 1000000) \div T2 ELSE ((M * 100000) \div T2) * 10   \* ... / tau^2, in 1e-5
      E == IF t > 8000 * g.tau0 THEN 0 ELSE Exp30(t, 1000 * g.tau0)
      ME == IF M2 < 60000 THEN (M2 * E) \div 30000 ELSE IF M2 < 6000000 THEN ((M2 \div 100) * E) \div 300 ELSE ((M2 \div 3000) * E) \div 10   \* magnitude in 1e-5
      big == MaxAbs(Y)
      exact == Square(Disc(q)) /\ t * q.A = 1000 * (q.B - D)
      fine == big < 2000000000 \div Max(ME, 1)
      coarse == ~fine /\ big > 50000 /\ (big \div 250 + 1) < 2000000000 \div Max(ME, 1)
      fits == fine \/ coarse \/ (ME > 50000 /\ big < 2000000000 \div (ME \div 250))
      f == IF fine THEN VDiv(Scale(ME, Y), 100000) ELSE IF coarse THEN VDiv(Scale(ME, VDiv(Y, 250)), 400) ELSE VDiv(Scale(ME \div 250, Y), 400)
      len2 == IF MaxAbs(f) < 256 * 30000 THEN Len2(VDiv(f, 256)) ELSE 2000000000
      cap == 2000
      none == [known |-> FALSE, cap |-> FALSE, f |-> <<0, 0>>, tol |-> 0, n |-> W]
  IN IF t > 4000 /\ t <= 40000 THEN Far(q, D, W, Y, t, g, Len(a.parts) = 3)
     ELSE IF t < 200 \/ t > 40000 \/ ~(exact \/ (t >= 150 /\ D >= 100 /\ q.B - D >= 100)) \/ ~fits THEN none
     ELSE [known |-> len2 < Sq(cap - cap \div 5), cap |-> len2 > Sq(cap + cap \div 5), f |-> f,
           tol |-> MaxAbs(f) \div (IF exact THEN 50 ELSE 10) + ((big \div 1000) * (M2 \div 1000 + 4)) \div 2500 + big \div 100000 + ME \div 100000 + 6, n |-> W]
=============================================================================
