------------------------------- MODULE Pictures -------------------------------
(* Pictures (crowddynamics/visualizations): what is on a figure after geometries, fields, maps and trees are drawn.
   Geometries as in Breakup, without the repeated first point of rings; [t |-> "none"] where there is none.
   A glyph is [k, pts, legend, tag]: markers, lines and patches. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act      \* st: the glyphs on the figure, in the order drawn

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
G(k, p, l, t) == <<[k |-> k, pts |-> p, legend |-> l, tag |-> t]>>
\* every part once, collections part by part; polygons by their outline
RECURSIVE Glyphs(_, _, _)
Glyphs(g, l, t) ==
  CASE g.t = "none" -> <<>>
    [] g.t = "Point" -> G("marker", g.pts, l, t)
    [] g.t = "LineString" -> G("line", g.pts, l, t)
    [] g.t = "Polygon" -> G("patch", g.pts, l, t)
    [] g.t = "Multi" -> Cat([i \in DOMAIN g.parts |-> Glyphs(g.parts[i], l, t)])
\* a field: all its parts; named ones in a plot
Name(named, s) == IF named THEN s ELSE ""
Parts(f, named) == Glyphs(f.domain, Name(named, "domain"), 0)
                   \o Cat([i \in DOMAIN f.spawns |-> Glyphs(f.spawns[i], Name(named, "spawn_" \o ToString(i - 1)), 0)])
                   \o Cat([i \in DOMAIN f.targets |-> Glyphs(f.targets[i], Name(named, "target_" \o ToString(i - 1)), 0)])
                   \o Glyphs(f.walls, Name(named, "obstacles"), 0)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

(* --- plot ranges. Data x, y with margin m tenths of the size on either side; aspect an/ad for a figure of pw : ph --- *)
Need(d, m, one) == IF d > 0 THEN d * (10 + 2 * m) ELSE 10 * one      \* in tenths; nothing has the size one
\* r: <<x0, x1, y0, y1>>, as large as needed for one of the two, in that aspect, in units of K per unit of length
Shown(x, y, m, an, ad, pw, ph, one, K) ==
  LET W == (Need(x[2] - x[1], m, one) * K) \div 10  H == (Need(y[2] - y[1], m, one) * K) \div 10
      p == an * pw  q == ad * ph
      wide == W * q < p * H
  IN [w |-> IF wide THEN (H * p) \div q ELSE W, h |-> IF wide THEN H ELSE (W * q) \div p, W |-> W, H |-> H]

(* --- trees: nodes n0, n1, ...; parents[i] of node i - 1 --- *)
NodeNames(ps) == {"n" \o ToString(i - 1) : i \in DOMAIN ps}
TreeEdges(ps) == {<<"n" \o ToString(ps[i]), "n" \o ToString(i - 1)>> : i \in 2..Len(ps)}
=============================================================================
