--------------------------------- MODULE Nav ---------------------------------
(* Navigation: mesh, direction fields, obstacle avoidance, walking along a field. Lengths are integers; directions are
   vectors in 1/D. Grids are sequences of rows (y), each a sequence over x, counted from 1 here and from 0 in the code. *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

D == 1024
UNDEF == -2000000000
CeilDiv(a, b) == -((-a) \div b)
Max(a, b) == IF a < b THEN b ELSE a

(* mesh over [lo, hi] in steps: first point at lo, the last the first one not below hi *)
MeshSize(lo, hi, step) == CeilDiv(hi - lo, step) + 1
MeshValue(lo, step, i) == lo + i * step
CellOf(p, lo, step) == <<(p[1] - lo[1]) \div step, (p[2] - lo[2]) \div step>>
InMesh(c, n, m) == 0 <= c[1] /\ c[1] < n /\ 0 <= c[2] /\ c[2] < m
At(grid, c) == grid[c[2] + 1][c[1] + 1]

(* twice the gradient: central differences, one-sided at the edges *)
Diff(f(_), i, n) == IF n = 1 THEN 0 ELSE IF i = 1 THEN 2 * (f(2) - f(1)) ELSE IF i = n THEN 2 * (f(n) - f(n - 1)) ELSE f(i + 1) - f(i - 1)
Gradient(d, c) == LET n == Len(d[1])  m == Len(d)  R(i) == d[c[2] + 1][i]  C(j) == d[j][c[1] + 1] IN <<Diff(R, c[1] + 1, n), Diff(C, c[2] + 1, m)>>

\* h (in 1/D) is the unit vector along the integer vector g; undefined where g is zero
IsUnit(h, g) ==
  IF g = <<0, 0>> THEN TRUE
  ELSE LET s == Max(1, 9000 \div Max(Abs(g[1]), Abs(g[2])))  l == Root(Sq(s * g[1]) + Sq(s * g[2])) IN
       \A k \in {1, 2} : Abs(h[k]) <= D + 2 /\ Abs(h[k] * l - D * s * g[k]) <= 6 * l
IsUndef(h) == h = <<UNDEF, UNDEF>>

(* Avoidance. The share of the obstacle is strength^(x/radius); with strength 2^-radius and integer distance x it is 2^-x. *)
Turned(x, radius, o, t) == IF 0 < x /\ x < radius THEN <<(2^x - 1) * t[1] - o[1], (2^x - 1) * t[2] - o[2]>> ELSE t

\* what the node leaves as the direction of an agent: own direction e, position p, mesh and field of its target
NodeDirections(p, e, lo, step, u, v) ==
  LET c == CellOf(p, lo, step)  n == Len(u[1])  m == Len(u)
      z == <<Max(c[1], 0), Max(c[2], 0)>>
      here(k) == <<At(u, k), At(v, k)>>
      of(k) == IF InMesh(k, n, m) /\ ~(here(k)[1] = UNDEF \/ here(k)[2] = UNDEF) THEN here(k) ELSE e
  \* less than one step below the mesh either side of the edge will do
  IN {of(c)} \cup (IF c[1] >= -1 /\ c[2] >= -1 THEN {of(z)} ELSE {})

(* Distance maps. Figures are axis-parallel boxes and segments [k, c]: they cover the cells between their corners.
   Distances: positive inside the targets, negative outside, no value inside obstacles; Z units to one step. *)
Raster(figs, lo, step, n, m) ==
  {c \in (0..n - 1) \X (0..m - 1) : \E k \in DOMAIN figs : LET a == CellOf(figs[k].c[1], lo, step)  b == CellOf(figs[k].c[2], lo, step) IN
      a[1] <= c[1] /\ c[1] <= b[1] /\ a[2] <= c[2] /\ c[2] <= b[2]}
Around(c, n, m) == {d \in (c[1] - 1..c[1] + 1) \X (c[2] - 1..c[2] + 1) : d # c /\ InMesh(d, n, m)}
Straight(c, d) == c[1] = d[1] \/ c[2] = d[2]
IsDistance(s, targets, free, z) ==
  LET n == Len(s[1])  m == Len(s) IN
  \A c \in free : LET v == At(s, c)  near == Around(c, n, m) \cap free IN
    /\ IF c \in targets THEN v >= 0 ELSE v < 0
    \* not shorter than a way along the mesh allows, within the error of a first order scheme
    /\ \A d \in near : IF (c \in targets) # (d \in targets) THEN Abs(v - At(s, d)) <= (5 * z) \div 2 ELSE Abs(v - At(s, d)) <= ((IF Straight(c, d) THEN 103 ELSE 146) * z) \div 100 + 2
    \* and there is such a way
    /\ (c \notin targets) =>
         (\/ \E d \in near : d \in targets /\ Straight(c, d) /\ 20 * z <= -(100 * v) /\ -(100 * v) <= 103 * z + 200
          \/ \E d \in near : At(s, d) - v >= (60 * z) \div 100)
\* cells whose distances enter the gradient at c
Used(c, n, m) == {<<i, c[2]>> : i \in ({c[1] - 1, c[1] + 1} \cup (IF c[1] \in {0, n - 1} THEN {c[1]} ELSE {})) \cap (0..n - 1)}
                 \cup {<<c[1], j>> : j \in ({c[2] - 1, c[2] + 1} \cup (IF c[2] \in {0, m - 1} THEN {c[2]} ELSE {})) \cap (0..m - 1)}
Nearest(c, cells) == LET d(a) == Sq(a[1] - c[1]) + Sq(a[2] - c[2]) IN {a \in cells : \A b \in cells : d(a) <= d(b)}

(* Closed loop: obstacles are boxes or segments, targets a box or a segment. *)
InBox(p, b) == b[1][1] < p[1] /\ p[1] < b[2][1] /\ b[1][2] < p[2] /\ p[2] < b[2][2]
InBoxTol(p, b, tol) == b[1][1] - tol <= p[1] /\ p[1] <= b[2][1] + tol /\ b[1][2] - tol <= p[2] /\ p[2] <= b[2][2] + tol
\* geodesic distance on a free grid: rounds of 4-neighbour relaxation from the goals
Neigh(c, free) == {d \in free : Abs(d[1] - c[1]) + Abs(d[2] - c[2]) = 1}
RECURSIVE Level(_, _, _, _)
Level(c, goals, free, k) == IF c \in goals THEN k ELSE IF goals = free \/ k > Cardinality(free) THEN Cardinality(free) + 1
                            ELSE Level(c, goals \cup UNION {Neigh(g, free) : g \in goals}, free, k + 1)
Dist(c, goals, free) == Level(c, goals, free, 0)
=============================================================================
