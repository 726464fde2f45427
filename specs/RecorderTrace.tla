---------------------------- MODULE RecorderTrace ----------------------------
EXTENDS Recorder, TraceKit

VARIABLES it            \* steps so far
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = <<>> /\ it = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok")
\* what lies in the directories: agents chunk by chunk, rows
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
DiskOk(s, d) ==
  Clause("flushed-agents-on-disk", Len(d) = Len(s) /\ \A i \in DOMAIN s : Join(d[i].chunks) = [k \in DOMAIN s[i].disk |-> s[i].disk[k].a])
  \cup Clause("one-chunk-for-each-flush", Len(d) = Len(s) /\ \A i \in DOMAIN s : Len(d[i].chunks) = s[i].chunks)
  \cup Clause("flushed-data-on-disk", Len(d) = Len(s) /\ \A i \in DOMAIN s : d[i].rows = [k \in DOMAIN s[i].disk |-> s[i].disk[k].r])
  \cup Clause("data-names-once", Len(d) = Len(s) /\ \A i \in DOMAIN s : d[i].head = IF s[i].chunks = 0 THEN <<>> ELSE Ev.keys)
  \cup Clause("only-its-own-files", Len(d) = Len(s) /\ \A i \in DOMAIN s : d[i].other = 0)
TOpen == /\ IsOp("open") /\ UNCHANGED <<act, it>>
         /\ st' = Append(st, Fresh)
         /\ ReportAll(Ok \cup Clause("directory", Ev.out = "ok" => Ev.dir = Ev.wantdir)
                      \cup Clause("metadata-once", Ev.out = "ok" => Ev.meta = <<Ev.metakeys, Ev.metavals>>)
                      \cup Clause("geometries", Ev.out = "ok" => Ev.geo = Ev.field)
                      \cup DiskOk(Append(st, Fresh), Ev.disk), Ev.metavals)
TStep == /\ IsOp("step") /\ UNCHANGED act
         /\ it' = it + 1
         /\ LET rec == [a |-> Ev.live, r |-> <<it, Ev.time, Ev.val>>]
                next == IF st = <<>> THEN st ELSE StepAll(st, rec, Ev.saves)
            IN /\ st' = next
               /\ ReportAll(Ok \cup Clause("condition-asked-once", Ev.calls = [i \in DOMAIN st |-> 1])
                            \cup Clause("condition-gets-the-simulation", Ev.self)
                            \cup Clause("force-zero-when-recorded", Ev.zero)
                            \cup DiskOk(next, Ev.disk), [i \in DOMAIN next |-> next[i].chunks])
\* files of directories opened before are still the same after the simulation object is gone; what was not flushed is lost
TDrop == /\ IsOp("drop") /\ UNCHANGED <<act, it>>
         /\ st' = [i \in DOMAIN st |-> Lost(st[i])]
         /\ ReportAll(Ok \cup DiskOk(st', Ev.disk), 0)
Known == {"open", "step", "drop"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act, it>>
TraceNext == TOpen \/ TStep \/ TDrop \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l, it>>
=============================================================================
