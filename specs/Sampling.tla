------------------------------- MODULE Sampling -------------------------------
(* Random points on plane figures: where they may lie, and shares of the figure. Integer coordinates. *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

Area2(p) == LET n == Len(p)  t[i \in 0..n] == IF i = 0 THEN 0 ELSE t[i - 1] + Cross(p[i], p[(i % n) + 1]) IN t[n]
Scale(p, k) == [i \in DOMAIN p |-> <<k * p[i][1], k * p[i][2]>>]
\* inside or on a convex polygon given counterclockwise, tolerance d (distance)
InConvex(x, p, d) == \A i \in DOMAIN p : LET a == p[i]  b == p[(i % Len(p)) + 1]  e == Sub(b, a) IN Cross(e, Sub(x, a)) >= -d * (Abs(e[1]) + Abs(e[2]))
OnSegment(x, a, b, d) ==
  LET e == Sub(b, a)  c == Cross(e, Sub(x, a))  t == Dot(e, Sub(x, a)) IN
  IF e = <<0, 0>> THEN Abs(x[1] - a[1]) <= d /\ Abs(x[2] - a[2]) <= d
  ELSE Abs(c) <= d * (Abs(e[1]) + Abs(e[2])) /\ -d * (Abs(e[1]) + Abs(e[2])) <= t /\ t <= Len2(e) + d * (Abs(e[1]) + Abs(e[2]))
\* convex hull of points, counterclockwise: gift wrapping from the lowest leftmost point
Lowest(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
NextOnHull(x, S) == CHOOSE y \in S \ {x} : \A z \in S \ {x} : Cross(Sub(y, x), Sub(z, x)) > 0 \/ (Cross(Sub(y, x), Sub(z, x)) = 0 /\ Len2(Sub(z, x)) <= Len2(Sub(y, x)))
RECURSIVE Wrap(_, _)
Wrap(h, S) == LET y == NextOnHull(h[Len(h)], S) IN IF y = h[1] THEN h ELSE Wrap(Append(h, y), S)
Hull(S) == IF Cardinality(S) = 1 THEN <<CHOOSE x \in S : TRUE>> ELSE Wrap(<<Lowest(S)>>, S)

(* A share w/W of n independent trials: counts within six standard deviations (and three more). *)
SharesFit(k, n, w0, W0) ==
  LET d == 1 + W0 \div (1000000000 \div (n + 1))  w == w0 \div d  W == W0 \div d     \* so that products stay in range
      dev == k * W - n * w IN     \* |k - n w/W| W
  Abs(dev) \div W <= 6 * (Root((n * w) \div W - ((((n * w) \div W) * w) \div W)) + 1) + 3
Count(S(_), xs) == Cardinality({k \in DOMAIN xs : S(xs[k])})
\* halves of a convex polygon: the triangles of the fan from a vertex
Fan(p, r) == LET n == Len(p)  at(i) == p[((r + i - 2) % n) + 1] IN [k \in 1..(n - 2) |-> <<at(1), at(k + 1), at(k + 2)>>]
\* the four equal triangles of a triangle with even coordinates
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Quarters(t) == LET x == Mid(t[1], t[2])  y == Mid(t[2], t[3])  z == Mid(t[3], t[1]) IN {<<t[1], x, z>>, <<x, t[2], y>>, <<z, y, t[3]>>, <<x, y, z>>}
\* its three corners, an eighth as wide (1/64 of the area each)
Corners(t) == {LET At(a, b) == <<t[a][1] + (t[b][1] - t[a][1]) \div 8, t[a][2] + (t[b][2] - t[a][2]) \div 8>> IN <<t[i], At(i, (i % 3) + 1), At(i, ((i + 1) % 3) + 1)>> : i \in 1..3}
\* points are rounded: a count is known between two bounds
SharesFitIn(lo, hi, n, w, W) == LET e == 1 + W \div (1000000000 \div (n + 1))  best == (n * (w \div e)) \div (W \div e) IN SharesFit(IF best < lo THEN lo ELSE IF best > hi THEN hi ELSE best, n, w, W)
UniformIn(xs, t, W) == LET In(x) == InConvex(x, t, -1)  Near(x) == InConvex(x, t, 1) IN SharesFitIn(Count(In, xs), Count(Near, xs), Len(xs), Area2(t), W)
(* Normal distribution: area between 0 and k/4 standard deviations, in 1/100000. Values z are in 1/1000 of the deviation. *)
Half == <<0, 9871, 19146, 27337, 34134, 39435, 43319, 45994, 47725, 48778, 49379, 49702, 49865>>
Normal(k) == IF k < 0 THEN -Half[-k + 1] ELSE Half[k + 1]
\* truncated to [a, b] quarters: everything inside, and the right share between any two quarters
TruncatedIn(zs, a, b) == \A i \in DOMAIN zs : 250 * a - 2 <= zs[i] /\ zs[i] <= 250 * b + 2
TruncatedNormal(zs, a, b) == \A c, d \in a..b : c < d =>
  LET In(z) == 250 * c + 2 <= z /\ z < 250 * d - 2  Near(z) == 250 * c - 2 <= z /\ z <= 250 * d + 2 IN
  SharesFitIn(Count(In, zs), Count(Near, zs), Len(zs), Normal(d) - Normal(c), Normal(b) - Normal(a))
\* sixteen equal slices of the circle: quarter q, slice w of it (tan 22.5 = 0.41421)
InSlice(x, q, w) ==
  LET y == CASE q = 0 -> x [] q = 1 -> <<x[2], -x[1]>> [] q = 2 -> <<-x[1], -x[2]>> [] OTHER -> <<-x[2], x[1]>>
      k == IF 1000 * y[2] < 414 * y[1] THEN 1 ELSE IF y[2] < y[1] THEN 2 ELSE IF 414 * y[2] < 1000 * y[1] THEN 3 ELSE 4
  IN y[1] > 0 /\ y[2] >= 0 /\ k = w
=============================================================================
