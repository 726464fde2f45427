------------------------------- MODULE Planar -------------------------------
(* Exact plane geometry on integer coordinates. Points are <<x, y>>. *)
EXTENDS Naturals, Integers, Sequences

Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sq(x) == x * x
Len2(a) == Dot(a, a)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x

\* two discs have common interior points
DiscsOverlap(c, r, d, s) == Len2(Sub(c, d)) < Sq(r + s)
\* a disc has interior points on the segment p-q
DiscMeetsSegment(c, r, p, q) ==
  LET d == Sub(q, p)  a == Dot(Sub(c, p), d)
  IN IF a < 0 THEN Len2(Sub(c, p)) < Sq(r)
     ELSE IF a > Len2(d) THEN Len2(Sub(c, q)) < Sq(r)
     ELSE Sq(Cross(d, Sub(c, p))) < Sq(r) * Len2(d)

\* segments p-q and a-b have a common point; parallel ones never count (as the implementation documents by its test)
SegmentsCross(p, q, a, b) ==
  LET u == Sub(q, p)  v == Sub(b, a)  w == Sub(a, p)
      d == Cross(u, v)  t0 == Cross(w, v) * Sgn(d)  t1 == Cross(w, u) * Sgn(d)
  IN d # 0 /\ 0 <= t0 /\ t0 <= Abs(d) /\ 0 <= t1 /\ t1 <= Abs(d)
Hidden(p, q, walls) == \E k \in DOMAIN walls : SegmentsCross(p, q, walls[k][1], walls[k][2])

\* floor of the square root
RECURSIVE RootFrom(_, _, _)
RootFrom(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootFrom(n, m, hi) ELSE RootFrom(n, lo, m - 1)
Root(n) == RootFrom(n, 0, 46340)
=============================================================================
