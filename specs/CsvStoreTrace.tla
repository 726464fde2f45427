--------------------------- MODULE CsvStoreTrace ---------------------------
EXTENDS CsvStore, TraceKit

TraceInit == KitInit /\ act = "init" /\ st = InitSt(Cfg(tid).nf, Cfg(tid).nw)
\* every event carries the parsed content of all files
Disk == Clause("on-disk", Ev.disk = st'.files)
Ok == Clause("accepted", Ev.out = "ok")
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ act' = o
Rep == ReportAll(Ok \cup Disk, st'.files)
TOpen == IsOp("open") /\ Open(Ev.w, Ev.f) /\ Rep
TSend == IsOp("send") /\ Send(Ev.w, Ev.keys, Ev.vals) /\ Rep
TFlag == IsOp("flag") /\ Flag(Ev.w, Ev.dump) /\ Rep
TMutate == IsOp("mutate") /\ Mutate(Ev.w) /\ Rep
TAbandon == IsOp("abandon") /\ Abandon(Ev.w) /\ Rep
TPre == IsOp("pre") /\ Preexisting(Ev.f, Ev.lines) /\ Rep
TOther == /\ More /\ Ev.op \notin {"open", "send", "flag", "mutate", "abandon", "pre"}
          /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TOpen \/ TSend \/ TFlag \/ TMutate \/ TAbandon \/ TPre \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
