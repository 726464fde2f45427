--------------------------- MODULE GeoStoreTrace ---------------------------
EXTENDS GeoStore, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [f \in 1..Cfg(tid).files |-> Absent]
IsOp(o) == More /\ Ev.op = o /\ KitNext
Disk == [f \in DOMAIN st |-> IF Ev.disk[f].there THEN Content(Ev.disk[f].m) ELSE Absent]
\* after every event, a plain JSON reader finds in every file what the design says
OnDisk == Clause("on-disk", \A f \in DOMAIN st' : (Ev.op = "junk" /\ Ev.f = f) \/ ~st'[f].there \/ Disk[f] = st'[f])
TSave == /\ IsOp("save")
         /\ Save(Ev.f, Ev.m)
         /\ ReportAll(Clause("saved", Ev.out = "ok") \cup OnDisk, st'[Ev.f])
TLoad == /\ IsOp("load")
         /\ Load(Ev.f)
         /\ ReportAll(Clause("round-trip", IF st[Ev.f].there THEN Ev.out = "ok" /\ ToSet(Ev.res) = st[Ev.f].m /\ Len(Ev.res) = Cardinality(st[Ev.f].m)
                                           ELSE Ev.out # "ok")
                      \cup OnDisk, st[Ev.f])
TRemove == IsOp("remove") /\ Unlink(Ev.f) /\ ReportAll(OnDisk, st'[Ev.f])
TJunk == IsOp("junk") /\ Junk(Ev.f)
TOther == More /\ Ev.op \notin {"save", "load", "remove", "junk"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TSave \/ TLoad \/ TRemove \/ TJunk \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
