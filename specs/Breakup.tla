------------------------------- MODULE Breakup -------------------------------
(* Geometries taken apart: into flagged coordinates, into segments, and drawn on a grid.
   A geometry is [t, pts, holes, parts]: t = "Point" | "LineString" | "Polygon" | "Multi"; pts: points of the point, line or
   shell; holes: rings; parts: geometries of a collection. Rings of polygons are given without the repeated first point. *)
EXTENDS Arrival

Closed(r) == Append(r, r[1])
Pairs(c) == [i \in 1..(Len(c) - 1) |-> <<c[i], c[i + 1]>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

RECURSIVE Segments(_)
Segments(g) ==
  CASE g.t = "Point" -> <<>>
    [] g.t = "LineString" -> Pairs(g.pts)
    [] g.t = "Polygon" -> Pairs(Closed(g.pts)) \o Cat([i \in DOMAIN g.holes |-> Pairs(Closed(g.holes[i]))])
    [] g.t = "Multi" -> Cat([i \in DOMAIN g.parts |-> Segments(g.parts[i])])

\* separator, then coordinates; NAN is how a recorded not-a-number looks
NAN == -2000000000
RECURSIVE Flagged(_, _)
Flagged(g, u) ==
  CASE g.t = "Point" -> <<<<NAN, 0>>>> \o g.pts
    [] g.t = "LineString" -> <<<<NAN, u>>>> \o g.pts
    [] g.t = "Polygon" -> Cat([i \in DOMAIN g.holes |-> <<<<NAN, 2 * u>>>> \o Closed(g.holes[i])]) \o <<<<NAN, 3 * u>>>> \o Closed(g.pts)
    [] g.t = "Multi" -> Cat([i \in DOMAIN g.parts |-> Flagged(g.parts[i], u)])

\* is a grid point drawn: "yes", "no" or "any" (closer than one step to a slanted edge, or on the edge of a hole)
Straight(a, b) == a[1] = b[1] \/ a[2] = b[2] \/ Abs(a[1] - b[1]) = Abs(a[2] - b[2])
OnSegment(p, a, b) == Cross(Sub(b, a), Sub(p, a)) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
Close(p, a, b) ==
  LET d == Sub(b, a)  v == Dot(Sub(p, a), d)
  IN IF v <= 0 THEN Len2(Sub(p, a)) <= 1 ELSE IF v >= Len2(d) THEN Len2(Sub(p, b)) <= 1 ELSE Sq(Cross(d, Sub(p, a))) <= Len2(d)
Edge(p, a, b) == IF p = a \/ p = b THEN "yes" ELSE IF Straight(a, b) THEN (IF OnSegment(p, a, b) THEN "yes" ELSE "no") ELSE IF Close(p, a, b) THEN "any" ELSE "no"
Any3(S) == IF "yes" \in S THEN "yes" ELSE IF "any" \in S THEN "any" ELSE "no"
EdgesOf(p, c) == Any3({Edge(p, c[i], c[i + 1]) : i \in 1..(Len(c) - 1)})
Ring(p, r) == LET e == EdgesOf(p, Closed(r)) IN IF e # "no" THEN e ELSE IF OnEdge(p, r) THEN "any" ELSE IF Inside(p, r) THEN "yes" ELSE "no"
Hole(p, r) == IF EdgesOf(p, Closed(r)) # "no" THEN "edge" ELSE IF Inside(p, r) THEN "in" ELSE "out"
RECURSIVE Drawn(_, _)
Drawn(p, g) ==
  CASE g.t = "Point" -> "no"
    [] g.t = "LineString" -> EdgesOf(p, g.pts)
    [] g.t = "Polygon" -> LET s == Ring(p, g.pts)  hs == {Hole(p, g.holes[i]) : i \in DOMAIN g.holes}
                          IN IF s = "no" \/ "in" \in hs THEN "no" ELSE IF "edge" \in hs THEN "any" ELSE s
    [] g.t = "Multi" -> Any3({Drawn(p, g.parts[i]) : i \in DOMAIN g.parts})
\* grid: function from points to values
After(grid, g, v) == [p \in DOMAIN grid |-> IF Drawn(p, g) = "yes" THEN v ELSE grid[p]]

\* convex hull of a set of points: hull (sequence of points) turns left everywhere, uses only those points and holds all of them
HullOf(ps, h) ==
  /\ \A i \in DOMAIN h : h[i] \in ps
  /\ \A i \in DOMAIN h, p \in ps : Cross(Sub(Nx(h, i), h[i]), Sub(p, h[i])) >= 0
RECURSIVE Corners(_)
Corners(g) == IF g.t = "Multi" THEN UNION {Corners(g.parts[i]) : i \in DOMAIN g.parts} ELSE {g.pts[i] : i \in DOMAIN g.pts}
=============================================================================
