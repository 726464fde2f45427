------------------------------- MODULE Density -------------------------------
(* Density of agents on a grid of measuring cells. Coordinates are integers; a measuring cell <<i, j>> of size c covers
   [i c, (i+1) c) x [j c, (j+1) c). Voronoi cells are exact for agents standing on all crossings of the lines x in xs, y in ys. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

Floor(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Rng(s) == {s[i] : i \in DOMAIN s}
Cell(p, c) == <<Floor(p[1], c), Floor(p[2], c)>>
\* number of agents in each measuring cell; lowest cell and size of the grid
Low(ps, c) == <<MinS({Floor(ps[i][1], c) : i \in DOMAIN ps}), MinS({Floor(ps[i][2], c) : i \in DOMAIN ps})>>
High(ps, c) == <<MaxS({Floor(ps[i][1], c) : i \in DOMAIN ps}), MaxS({Floor(ps[i][2], c) : i \in DOMAIN ps})>>
Shape(ps, c) == <<High(ps, c)[1] - Low(ps, c)[1] + 1, High(ps, c)[2] - Low(ps, c)[2] + 1>>
Count(ps, c, cell) == Cardinality({i \in DOMAIN ps : Cell(ps[i], c) = cell})
Counts(ps, c) == [i \in 1..Shape(ps, c)[1] |-> [j \in 1..Shape(ps, c)[2] |-> Count(ps, c, <<Low(ps, c)[1] + i - 1, Low(ps, c)[2] + j - 1>>)]]

Bounds(ps, d) == [k \in 1..d |-> <<MinS({ps[i][k] : i \in DOMAIN ps}), MaxS({ps[i][k] : i \in DOMAIN ps})>>]

\* one axis: lines xs (strictly increasing, all even); the Voronoi interval of line k, cut off at the outer lines
Lo(xs, k) == IF k = 1 THEN xs[1] ELSE (xs[k - 1] + xs[k]) \div 2
Hi(xs, k) == IF k = Len(xs) THEN xs[k] ELSE (xs[k] + xs[k + 1]) \div 2
Width(xs, k) == Hi(xs, k) - Lo(xs, k)
Overlap(a, b, c, i) == Max2(0, Min2(b, (i + 1) * c) - Max2(a, i * c))
\* share of agent <<k, l>> that falls into measuring cell <<i, j>>, times K (rounded down)
Share(xs, ys, c, k, l, i, j, K) == (Overlap(Lo(xs, k), Hi(xs, k), c, i) * Overlap(Lo(ys, l), Hi(ys, l), c, j) * K) \div (Width(xs, k) * Width(ys, l))
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Voronoi1(xs, ys, c, i, j, K) == SumF([a \in (DOMAIN xs) \X (DOMAIN ys) |-> Share(xs, ys, c, a[1], a[2], i, j, K)], (DOMAIN xs) \X (DOMAIN ys))
\* agents whose Voronoi cell is bounded
Inner(xs, ys, a) == a[1] \in 2..(Len(xs) - 1) /\ a[2] \in 2..(Len(ys) - 1)
InCell(xs, ys, c, cell) == {a \in (DOMAIN xs) \X (DOMAIN ys) : Cell(<<xs[a[1]], ys[a[2]]>>, c) = cell}
AreaOf(xs, ys, S) == SumF([a \in S |-> Width(xs, a[1]) * Width(ys, a[2])], S)
=============================================================================
