--------------------------- MODULE NpyStoreTrace ---------------------------
EXTENDS NpyStore, TraceKit

TraceInit == KitInit /\ act = "init" /\ st = [b \in 1..Cfg(tid).n |-> NewWriter]

\* the complete directory listing is logged with every event: disk[b] = chunks of store b in index order,
\* extra = files that are neither chunks of a store nor foreign files the driver made
DiskClause == Clause("on-disk", "disk" \notin DOMAIN Ev \/ (Ev.disk = [b \in Bases |-> st'[b].chunks] /\ Ev.extra = <<>>))
Ok == Clause("accepted", Ev.out = "ok")
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ act' = o

TOpen == IsOp("open") /\ Open(Ev.b) /\ ReportAll(Ok \cup DiskClause, st'[Ev.b].chunks)
TSend == IsOp("send") /\ Send(Ev.b, Ev.frame) /\ ReportAll(Ok \cup DiskClause, st'[Ev.b].chunks)
TFlag == IsOp("flag") /\ Flag(Ev.b, Ev.dump) /\ ReportAll(Ok \cup DiskClause, st'[Ev.b].chunks)
TMutate == IsOp("mutate") /\ Mutate(Ev.b) /\ ReportAll(Ok \cup DiskClause, st'[Ev.b].chunks)
TAbandon == IsOp("abandon") /\ Abandon(Ev.b) /\ ReportAll(Ok \cup DiskClause, st'[Ev.b].chunks)
TForeign == IsOp("foreign") /\ Foreign(Ev.name) /\ ReportAll(Ok \cup DiskClause, "")
TLoad == IsOp("load") /\ UNCHANGED st
         /\ ReportAll(Clause("load-order", Ev.out = "ok" /\ Ev.res = Load(Ev.b)), Load(Ev.b))
TFind == IsOp("find") /\ UNCHANGED st    \* indices of the chunk files found, sorted by the driver
         /\ ReportAll(Clause("find", Ev.out = "ok" /\ Ev.res = [i \in DOMAIN Load(Ev.b) |-> i - 1]), Len(Load(Ev.b)))
TCat == IsOp("cat") /\ UNCHANGED st
        /\ ReportAll(IF Load(Ev.b) = <<>> THEN {} ELSE Clause("load-concatenated", Ev.out = "ok" /\ Ev.res = LoadCat(Ev.b)), LoadCat(Ev.b))
TOther == /\ More /\ Ev.op \notin {"open", "send", "flag", "mutate", "abandon", "foreign", "load", "find", "cat"}
          /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TOpen \/ TSend \/ TFlag \/ TMutate \/ TAbandon \/ TForeign \/ TLoad \/ TFind \/ TCat \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
