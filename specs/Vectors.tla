------------------------------- MODULE Vectors -------------------------------
(* Vectors of the plane with integer coordinates; angles in sixteenths of a turn (pi / 8). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

SeqRange(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Rot90(v) == <<-v[2], v[1]>>
Rot270(v) == <<v[2], -v[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Len2(v) == Dot(v, v)
\* to the interval [-8, 8]: 8 for odd positive multiples of 8, -8 for odd negative ones
\* (multiples of pi beyond 7 are not exact in binary)
ExactHalf(n) == n % 16 = 8 /\ Abs(n) <= 56
Wrap(n) == LET m == n % 16 IN IF m = 8 THEN (IF n < 0 THEN -8 ELSE 8) ELSE IF m > 8 THEN m - 16 ELSE m
\* 10000 cos(n pi / 8)
Cos16(n) == LET m == n % 16  k == IF m > 8 THEN 16 - m ELSE m  c == <<10000, 9239, 7071, 3827, 0, -3827, -7071, -9239, -10000>> IN c[k + 1]
Sin16(n) == Cos16(n - 4)
\* n (in units of 1/10000) is v with length one
IsUnit(n, v) == Abs(Cross(v, n)) <= Abs(v[1]) + Abs(v[2]) + 1 /\ Dot(v, n) > 0 /\ Abs(Len2(n) - 100000000) <= 40000
RECURSIVE SqrtFrom(_, _)
SqrtFrom(x, s) == IF (s + 1) * (s + 1) <= x THEN SqrtFrom(x, s + 1) ELSE s
ISqrt(x) == SqrtFrom(x, 0)
\* two discs, displacement c, relative velocity v, sum of radii r: coefficients of |c + v t| = r
CoefA(v) == Len2(v)
CoefB(c, v) == -Dot(c, v)
Disc(c, v, r) == CoefB(c, v) * CoefB(c, v) - CoefA(v) * (Len2(c) - r * r)
\* they touch, at a positive time, approaching; those that overlap already or just graze do not count
Meets(c, v, r) == CoefA(v) > 0 /\ Disc(c, v, r) > 0 /\ CoefB(c, v) > 0 /\ Len2(c) > r * r
=============================================================================
