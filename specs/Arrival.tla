------------------------------- MODULE Arrival -------------------------------
(* Which agents are inside the domain, and which have ever been inside a target. Polygons are sequences of integer
   points (the last one is joined with the first one). *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

Nx(poly, i) == poly[IF i = Len(poly) THEN 1 ELSE i + 1]
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnEdge(p, poly) == \E i \in DOMAIN poly : Cross(Sub(Nx(poly, i), poly[i]), Sub(p, poly[i])) = 0
                                         /\ Between(p[1], poly[i][1], Nx(poly, i)[1]) /\ Between(p[2], poly[i][2], Nx(poly, i)[2])
\* edges that the ray from p to the right crosses
RayEdges(p, poly) == {i \in DOMAIN poly : LET a == poly[i]  b == Nx(poly, i)  up == b[2] > a[2]  IN
                        (a[2] > p[2]) # (b[2] > p[2]) /\ (Cross(Sub(b, a), Sub(p, a)) > 0) = up}
Inside(p, poly) == Cardinality(RayEdges(p, poly)) % 2 = 1
\* what may be answered: on the edge both
MayBe(p, poly, res) == OnEdge(p, poly) \/ res = Inside(p, poly)

\* agents: sequence of [x, active]
Changes(a, b) == Cardinality({i \in DOMAIN a : a[i].active # b[i].active})
AfterInside(a, dom) == [i \in DOMAIN a |-> [a[i] EXCEPT !.active = Inside(a[i].x, dom)]]
\* reached: for each target the set of agents that were in it at some update
AfterReach(reached, a, polys) == [t \in DOMAIN polys |-> reached[t] \cup {i \in DOMAIN a : Inside(a[i].x, polys[t])}]
=============================================================================
