--------------------------- MODULE PlacementTrace ---------------------------
EXTENDS Placement, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = <<>>
IsOp(o) == More /\ Ev.op = o /\ KitNext
F == 1024       \* recorded coordinates are in units of 1/F of the design's
Want(row) == [id |-> row.id, x |-> row.pos[1] * F, y |-> row.pos[2] * F,
              sh |-> [k \in DOMAIN row.body |-> <<(row.pos[1] + row.body[k][1]) * F, (row.pos[2] + row.body[k][2]) * F>>],
              rad |-> [k \in DOMAIN row.body |-> row.body[k][3] * F]]
Rows(r) == [i \in DOMAIN r |-> Want(r[i])]
Pos(r) == [i \in DOMAIN r |-> <<r[i].id, r[i].x, r[i].y>>]
TAdd == /\ IsOp("add")
        /\ AddGroup(Ev.members, Ev.supply, Ev.walls)
        /\ LET want == Rows(st')
           IN ReportAll(Clause("accepted", Ev.out = "ok")
                   \cup Clause("earlier-rows-kept", Len(Ev.rows) >= Len(st) /\ SubSeq(Ev.rows, 1, Len(st)) = Rows(st))
                   \cup Clause("placed", Pos(Ev.rows) = Pos(want))
                   \cup Clause("body", Pos(Ev.rows) # Pos(want) \/ Ev.rows = want)
                   \cup Clause("positions-taken", Ev.used = After(Ev.members, Ev.supply, Ev.walls).used), want)
TMismatch == /\ IsOp("mismatch") /\ Mismatch
             /\ ReportAll(Clause("type-mismatch", Ev.out = "CrowdDynamicsException" /\ Ev.rows = Rows(st)), Rows(st))
TOther == More /\ Ev.op \notin {"add", "mismatch"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TAdd \/ TMismatch \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
