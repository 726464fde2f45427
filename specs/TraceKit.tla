------------------------------ MODULE TraceKit ------------------------------
(* Shared by every trace spec. A batch is a sequence of recorded executions [cfg, ev]; a behaviour of the trace
   spec picks one (tid) and consumes its events one by one (l). Verdicts are total: an event that the design does
   not allow prints a BAD line naming the failing clause and the run goes on. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES tid, l

Batch == JsonDeserialize(IOEnv.TRACE_FILE)
Trace == Batch[tid].ev
Cfg(t) == Batch[t].cfg
More == l < Len(Trace)
Ev == Trace[l + 1]

Report(c, info) == PrintT("BAD " \o ToJson([tid |-> tid, l |-> l + 1, clause |-> c, info |-> info]))
ReportAll(cs, info) == \A c \in cs : Report(c, info)
KitInit == tid \in 1..Len(Batch) /\ l = 0
KitNext == l' = l + 1 /\ tid' = tid
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
