------------------------------- MODULE NavTrace -------------------------------
EXTENDS Nav, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED <<st, act>>
Ok == Clause("accepted", Ev.out = "ok")
Then(cs) == ReportAll(Ok \cup (IF Ev.out = "ok" THEN cs ELSE {}), 0)
Vec(u, v, c) == <<At(u, c), At(v, c)>>
CellsOf(g) == {<<i, j>> : i \in 0..Len(g[1]) - 1, j \in 0..Len(g) - 1}
SameShape(u, g) == Len(u) = Len(g) /\ \A k \in DOMAIN u : Len(u[k]) = Len(g[k])

TMesh == /\ IsOp("mesh")
         /\ LET n == MeshSize(Ev.lo[1], Ev.hi[1], Ev.step)  m == MeshSize(Ev.lo[2], Ev.hi[2], Ev.step) IN
            Then(Clause("mesh-shape", Ev.shape = <<m, n>>)
                 \cup Clause("mesh-values", /\ Ev.xs = [k \in 1..n |-> MeshValue(Ev.lo[1], Ev.step, k - 1)] /\ Ev.ys = [k \in 1..m |-> MeshValue(Ev.lo[2], Ev.step, k - 1)]
                                            /\ Ev.plain)
                 \cup Clause("mesh-index", \A k \in DOMAIN Ev.ps : LET c == CellOf(Ev.ps[k], <<4096 * Ev.lo[1], 4096 * Ev.lo[2]>>, 4096 * Ev.step) IN
                                            \A a \in {1, 2} : c[a] >= 0 => Ev.cells[k][a] = c[a])
                 \cup Clause("outside-below", \A k \in DOMAIN Ev.ps : LET c == CellOf(Ev.ps[k], <<4096 * Ev.lo[1], 4096 * Ev.lo[2]>>, 4096 * Ev.step) IN
                                            \A a \in {1, 2} : c[a] < 0 => (Ev.cells[k][a] < 0 \/ (c[a] = -1 /\ Ev.cells[k][a] = 0))))
TField == /\ IsOp("field")
          /\ Then(Clause("field-shape", SameShape(Ev.u, Ev.d) /\ SameShape(Ev.v, Ev.d))
                  \cup Clause("unit-gradient", \A c \in CellsOf(Ev.d) : IsUnit(Vec(Ev.u, Ev.v, c), Gradient(Ev.d, c)))
                  \cup Clause("undefined-where-flat", \A c \in CellsOf(Ev.d) : Gradient(Ev.d, c) = <<0, 0>> => IsUndef(Vec(Ev.u, Ev.v, c)))
                  \cup Clause("rest-unchanged", Ev.rest))
THandle == /\ IsOp("handle")
           /\ Then(Clause("field-shape", SameShape(Ev.u, Ev.d) /\ SameShape(Ev.v, Ev.d))
                   \cup Clause("turned-away-from-obstacles", \A c \in CellsOf(Ev.d) :
                         IsUnit(Vec(Ev.u, Ev.v, c), Turned(-At(Ev.d, c), Ev.radius, Vec(Ev.ou, Ev.ov, c), Vec(Ev.tu, Ev.tv, c))))
                   \cup Clause("rest-unchanged", Ev.rest))
\* the same for single agents; those off the mesh or away from obstacles keep their direction
TCont == /\ IsOp("cont")
         /\ Then(Clause("turned-away-from-obstacles", \A k \in DOMAIN Ev.cells :
                   LET c == Ev.cells[k]  in == InMesh(c, Len(Ev.d[1]), Len(Ev.d))  x == IF in THEN -At(Ev.d, c) ELSE 0 IN
                   IF in /\ 0 < x /\ x < Ev.radius
                   THEN LET w == Turned(x, Ev.radius, Vec(Ev.ou, Ev.ov, c), Ev.es[k]) IN w = <<0, 0>> \/ IsUnit(Ev.res[k], w)
                   ELSE Ev.res[k] = <<D * Ev.es[k][1], D * Ev.es[k][2]>>)
                 \cup Clause("rest-unchanged", Ev.rest))
TPick == /\ IsOp("pick")
         /\ Then(Clause("direction-of-the-cell", \A k \in DOMAIN Ev.cells : LET c == <<Ev.cells[k][2], Ev.cells[k][1]>> IN
                   Ev.res[k] = IF InMesh(c, Len(Ev.u[1]), Len(Ev.u)) THEN Vec(Ev.u, Ev.v, c) ELSE Ev.es[k])
                 \cup Clause("rest-unchanged", Ev.rest))
\* the node: agents [x, target, e]; fields[target] = [lo, step, u, v]
TNode == /\ IsOp("node")
         /\ LET want == [k \in DOMAIN Ev.a |-> LET g == Ev.a[k] IN
                          IF g.target < 0 \/ g.target >= Len(Ev.fields) THEN {g.e}
                          ELSE LET f == Ev.fields[g.target + 1] IN NodeDirections(g.x, g.e, Ev.lo, Ev.step, f.u, f.v)]
            IN ReportAll(Ok \cup Clause("direction-of-the-cell", Ev.out = "ok" => \A k \in DOMAIN Ev.a : Ev.b[k].e \in want[k])
                         \cup Clause("rest-unchanged", Ev.rest), want)
\* the field that combines both, as a whole: where no obstacle is near it points down the distance
TSame == IsOp("same") /\ Then(Clause("one-field", Ev.res))
\* distances to a target around obstacles
TDist == /\ IsOp("dist")
         /\ IF Ev.out # "ok" THEN Then({}) ELSE
            LET n == Len(Ev.s[1])  m == Len(Ev.s)  z == Ev.step * Ev.scale
                obst == Raster(Ev.obstacles, Ev.lo, Ev.step, n, m)  tgt == Raster(Ev.targets, Ev.lo, Ev.step, n, m) \ obst  free == CellsOf(Ev.s) \ obst IN
            Then(Clause("mesh-shape", <<n, m>> = <<MeshSize(Ev.lo[1], Ev.hi[1], Ev.step), MeshSize(Ev.lo[2], Ev.hi[2], Ev.step)>>)
                 \cup Clause("no-distance-inside-obstacles", \A c \in CellsOf(Ev.s) : (c \in obst) = (At(Ev.masked, c) = 1))
                 \cup Clause("distance-around-obstacles", IsDistance(Ev.s, tgt, free, z)))
\* directions to a target: along the distance; where that has no gradient next to obstacles, as at the nearest place that has one
TPath == /\ IsOp("path")
         /\ IF Ev.out # "ok" THEN Then({}) ELSE
            LET n == Len(Ev.s[1])  m == Len(Ev.s)
                obst == Raster(Ev.obstacles, Ev.lo, Ev.step, n, m)
                known == {c \in CellsOf(Ev.s) : \A d \in Used(c, n, m) : At(Ev.masked, d) = 0}
                \* the direction is not defined there; without obstacles nothing is filled in
                flat == {c \in known : Gradient(Ev.s, c) = <<0, 0>>}
                outer == {c \in known : \E d \in Around(c, n, m) : d \notin known} IN
            Then(Clause("field-shape", SameShape(Ev.u, Ev.s) /\ SameShape(Ev.v, Ev.s))
                 \cup Clause("directions-exactly-off-obstacles", \A c \in CellsOf(Ev.s) : (obst = {} /\ c \in flat) \/ (c \in obst /\ c \notin known) = (At(Ev.undef, c) = 1))
                 \cup Clause("unit-gradient", \A c \in known : IsUnit(Vec(Ev.u, Ev.v, c), Gradient(Ev.s, c)))
                 \cup Clause("nearest-direction", flat # {} \/ \A c \in (CellsOf(Ev.s) \ known) \ obst : \E d \in Nearest(c, outer) : Vec(Ev.u, Ev.v, c) = Vec(Ev.u, Ev.v, d)))
\* walkers: paths of points
TWalk == /\ IsOp("walk")
         /\ Then(Clause("stays-off-obstacles", \A k \in DOMAIN Ev.paths : \A i \in DOMAIN Ev.paths[k] :
                            /\ \A b \in DOMAIN Ev.boxes : ~InBox(Ev.paths[k][i], Ev.boxes[b])
                            /\ \A w \in DOMAIN Ev.walls : i > 1 => ~SegmentsCross(Ev.paths[k][i - 1], Ev.paths[k][i], Ev.walls[w][1], Ev.walls[w][2]))
                 \cup Clause("reaches-the-target", Ev.arrives => \A k \in DOMAIN Ev.paths : LET p == Ev.paths[k] IN
                            \E i \in DOMAIN p : InBoxTol(p[i], Ev.goal, 2 * Ev.step))
                 \cup Clause("not-too-long", Ev.arrives => \A k \in DOMAIN Ev.paths : LET p == Ev.paths[k] IN
                            \E i \in DOMAIN p : InBoxTol(p[i], Ev.goal, 2 * Ev.step) /\ (i - 1) * Ev.stride <= 3 * Ev.bound))
Known == {"mesh", "field", "handle", "cont", "pick", "node", "same", "walk", "dist", "path"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TMesh \/ TField \/ THandle \/ TCont \/ TPick \/ TNode \/ TSame \/ TDist \/ TPath \/ TWalk \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
