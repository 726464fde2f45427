----------------------------- MODULE BreakupTrace -----------------------------
EXTENDS Breakup, TraceKit

\* st: nothing (grids are in the events)
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok")
Keep == UNCHANGED <<st, act>>
TSegments == /\ IsOp("segments") /\ Keep
             /\ LET want == IF Ev.none THEN <<>> ELSE Segments(Ev.g) IN
                ReportAll(Ok \cup Clause("every-edge-once-in-order", Ev.none \/ (Ev.out = "ok" => Ev.segs = want))
                             \cup Clause("obstacles-are-the-edges", Ev.out = "ok" => Ev.obst = want)
                             \cup Clause("geometry-unchanged", Ev.same), want)
TFlagged == /\ IsOp("flagged") /\ Keep
            /\ ReportAll(Ok \cup Clause("flagged-parts", Ev.out = "ok" => Ev.arr = Flagged(Ev.g, Ev.unit)), 0)
\* grids: sequence of rows; row y, column x, both counted from 0 in points
Bad(p, v) == LET old == Ev.old[p[2] + 1][p[1] + 1]  new == Ev.new[p[2] + 1][p[1] + 1]  d == Drawn(p, Ev.g)
             IN CASE d = "yes" -> new # v [] d = "no" -> new # old [] OTHER -> new \notin {old, v}
Cells == {<<x, y>> : x \in 0..(Ev.nx - 1), y \in 0..(Ev.ny - 1)}
TDraw == /\ IsOp("draw") /\ Keep
         /\ ReportAll(Ok \cup Clause("drawn-as-the-geometry", Ev.out = "ok" => {p \in Cells : Bad(p, Ev.value)} = {}), IF Ev.out = "ok" THEN {p \in Cells : Bad(p, Ev.value)} ELSE {})
THull == /\ IsOp("hull") /\ Keep
         /\ LET ps == UNION {Corners(Ev.gs[i]) : i \in DOMAIN Ev.gs} IN
            ReportAll(Ok \cup Clause("hull-of-all-objects", Ev.out = "ok" => Cardinality(ps) < 3 \/ HullOf(ps, Ev.hull)), ps)
TRefuse == /\ IsOp("refuse") /\ Keep
           /\ ReportAll(Clause("other-values-are-refused", Ev.out = "raise:TypeError") \cup Clause("grid-unchanged", Ev.same), 0)
Known == {"segments", "flagged", "draw", "hull", "refuse"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TSegments \/ TFlagged \/ TDraw \/ THull \/ TRefuse \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
