----------------------------- MODULE PicturesTrace -----------------------------
EXTENDS Pictures, TraceKit

\* st: number of geometry glyphs on the figure
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
Keep == UNCHANGED <<st, act>>
Ok == Clause("accepted", Ev.out = "ok") \cup Clause("earlier-drawings-stay", Ev.kept)
Range4(x, y, m, an, ad, pw, ph, one, k) ==
  LET s == Shown(x, y, m, an, ad, pw, ph, one, k)  r == Ev.ranges IN
  IF Len(r) # 4 THEN {"range-set"} ELSE
  LET w == r[2] - r[1]  h == r[4] - r[3]  tol == 3 IN
  Clause("range-centred-on-the-data", Abs(r[1] + r[2] - k * (x[1] + x[2])) <= tol /\ Abs(r[3] + r[4] - k * (y[1] + y[2])) <= tol)
  \cup Clause("range-holds-the-data", w >= s.W - tol /\ h >= s.H - tol)
  \cup Clause("aspect-as-asked", Abs(w - s.w) <= tol + s.w \div 10000 /\ Abs(h - s.h) <= tol + s.h \div 10000)
Still == Clause("range-only-changed-by-aspect", ~Ev.moved)
TGeom == /\ IsOp("geom") /\ Keep
         /\ LET want == Glyphs(Ev.g, "", Ev.tag) IN
            ReportAll(Ok \cup Still \cup Clause("every-part-once-in-order", Ev.out = "ok" => Ev.new = want) \cup Clause("geometry-unchanged", Ev.same), want)
TRefuse == /\ IsOp("refuse") /\ Keep
           /\ ReportAll(Clause("other-values-are-refused", Ev.out = "raise:TypeError") \cup Clause("nothing-drawn", Ev.new = <<>> /\ Ev.kept), 0)
\* Ev.unit units of length for one: 1000 / unit thousandths
TAspect == /\ IsOp("aspect") /\ Keep
           /\ ReportAll(Ok \cup Clause("nothing-drawn", Ev.new = <<>>) \cup (IF Ev.out = "ok" THEN Range4(Ev.x, Ev.y, Ev.m, Ev.an, Ev.ad, Ev.pw, Ev.ph, Ev.unit, 1000 \div Ev.unit) ELSE {}), 0)
TField == /\ IsOp("field") /\ Keep
          /\ ReportAll(Ok \cup Still \cup Clause("all-parts-of-the-field", Ev.out = "ok" => SameBag(Ev.new, Parts(Ev.f, FALSE))), Parts(Ev.f, FALSE))
\* mesh points with both indices a multiple of freq and a direction
Arrows == {<<i, j>> \in (1..Ev.nx) \X (1..Ev.ny) : (i - 1) % Ev.freq = 0 /\ (j - 1) % Ev.freq = 0 /\ Ev.dirs[j][i] # <<>>}
Tip(x) == LET d == Ev.dirs[x[2]][x[1]] IN <<1000 * (x[1] - 1) + (9 * Ev.freq * d[1]) \div 10, 1000 * (x[2] - 1) + (9 * Ev.freq * d[2]) \div 10>>
Tail2(x) == <<1000 * (x[1] - 1), 1000 * (x[2] - 1)>>
NearP(p, q, e) == Abs(p[1] - q[1]) <= e /\ Abs(p[2] - q[2]) <= e
Maps == Clause("an-arrow-for-every-freq-th-point", Len(Ev.shafts) = Cardinality(Arrows)
                  /\ \A x \in Arrows : \E n \in DOMAIN Ev.shafts : NearP(Ev.shafts[n][1], Tail2(x), 3))
        \cup Clause("arrows-along-the-directions", \A x \in Arrows : \E n \in DOMAIN Ev.shafts : NearP(Ev.shafts[n][1], Tail2(x), 3) /\ NearP(Ev.shafts[n][2], Tip(x), 5 + Ev.freq))
        \cup Clause("heads-at-the-tips", Len(Ev.heads) = Len(Ev.shafts)
                  /\ \A x \in Arrows : \E n \in DOMAIN Ev.heads : NearP(Ev.heads[n][1], Tip(x), 5 + Ev.freq) /\ NearP(Ev.heads[n][2], Ev.dirs[x[2]][x[1]], 3))
        \cup Clause("one-image-of-the-distances", Len(Ev.images) = 1 /\ Ev.images[1].same)
        \cup Clause("image-over-the-bounds", Len(Ev.images) = 1 => NearP(Ev.images[1].at, <<0, 0>>, 2) /\ NearP(Ev.images[1].size, Ev.size, 1001))
TMaps == /\ IsOp("maps") /\ Keep
         /\ ReportAll(Ok \cup Still \cup Clause("nothing-else-drawn", Ev.new = <<>>) \cup (IF Ev.out = "ok" THEN Maps ELSE {}), 0)
Bounds(g) == LET xs == {g.pts[i][1] : i \in DOMAIN g.pts}  ys == {g.pts[i][2] : i \in DOMAIN g.pts} IN
             <<CHOOSE a \in xs : \A b \in xs : a <= b, CHOOSE a \in xs : \A b \in xs : a >= b, CHOOSE a \in ys : \A b \in ys : a <= b, CHOOSE a \in ys : \A b \in ys : a >= b>>
TPlot == /\ IsOp("plot") /\ Keep
         /\ LET b == Bounds(Ev.f.domain) IN
            ReportAll(Ok \cup (IF Ev.out # "ok" THEN {} ELSE
                      Clause("all-parts-of-the-field", SameBag(Ev.new, Parts(Ev.f, TRUE))) \cup Maps
                      \cup Range4(<<b[1], b[2]>>, <<b[3], b[4]>>, 1, 1, 1, Ev.pw, Ev.ph, Ev.unit, 1000 \div Ev.unit)
                      \cup Clause("shown-once-when-finished", Ev.log = <<<<"file", Ev.name \o ".html", Ev.name>>, <<"show", "this", Ev.count>>>>)), Parts(Ev.f, TRUE))
LogEv(kind, n) == <<kind, "this", ToString(n)>>
TFigure == /\ IsOp("figure") /\ Keep
           /\ LET file == <<"file", Ev.base \o ".html", Ev.name>>
                  done == (IF Ev.show THEN {LogEv("show", Ev.draw)} ELSE {}) \cup (IF Ev.save THEN {LogEv("save", Ev.draw)} ELSE {}) IN
              ReportAll(Clause("errors-are-handed-on", Ev.out = IF Ev.raise THEN "raise:KeyError" ELSE "ok")
                        \cup Clause("figure-as-asked", Ev.width = 700)
                        \cup Clause("file-named-before-drawing", Ev.inside = <<file>> /\ Len(Ev.log) >= 1 /\ Ev.log[1] = file)
                        \cup Clause("shown-and-saved-as-asked", IF Ev.raise THEN Len(Ev.log) = 1
                                    ELSE Len(Ev.log) = 1 + Cardinality(done) /\ {Ev.log[i] : i \in 2..Len(Ev.log)} = done), 0)
TTree == /\ IsOp("tree") /\ Keep
         /\ ReportAll(IF Ev.ext \in {".dot", ".png"}
              THEN Clause("accepted", Ev.out = "ok") \cup Clause("file-written", Ev.exists)
                   \cup Clause("whole-tree-from-the-root", Ev.ext = ".dot" => {Ev.nodes[i] : i \in DOMAIN Ev.nodes} = NodeNames(Ev.parents) /\ Len(Ev.nodes) = Len(Ev.parents)
                                                            /\ {Ev.edges[i] : i \in DOMAIN Ev.edges} = TreeEdges(Ev.parents) /\ Len(Ev.edges) = Len(Ev.parents) - 1)
                   \cup Clause("a-picture", Ev.ext = ".png" => Ev.png)
              ELSE Clause("other-formats-are-refused", Ev.out # "ok") \cup Clause("nothing-written", Ev.exists = Ev.old), 0)
Known == {"geom", "refuse", "aspect", "field", "maps", "plot", "figure", "tree"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TGeom \/ TRefuse \/ TAspect \/ TField \/ TMaps \/ TPlot \/ TFigure \/ TTree \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
