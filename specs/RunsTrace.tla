------------------------------- MODULE RunsTrace -------------------------------
EXTENDS Runs, TraceKit
VARIABLES seen, digs, views
vars == <<st, act, seen, digs, views, tid, l>>
UNIT == 1000000
TOL == 50
N == Cfg(tid).sims
TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [i \in 1..N |-> None] /\ seen = [x \in {} |-> <<>>]
             /\ digs = [i \in 1..N |-> ""] /\ views = [i \in 1..N |-> Home(0)]
\* the first visit of a present says what it is
Judge(i, m, view) ==
  LET r == [rows |-> Normal(Ev.rows, view, UNIT), clock |-> Ev.clock] IN
  /\ seen' = IF Key(m) \in DOMAIN seen THEN seen ELSE (Key(m) :> r) @@ seen
  /\ ReportAll(Clause("same-past-same-present", Ev.out = "ok" /\ Key(m) \in DOMAIN seen => Same(r.rows, seen[Key(m)].rows, TOL))
               \cup Clause("same-past-same-clock", Ev.out = "ok" /\ Key(m) \in DOMAIN seen => Close(r.clock[1], seen[Key(m)].clock[1], 1) /\ Close(r.clock[2], seen[Key(m)].clock[2], 1))
               \cup Clause("steps-counted", Ev.out = "ok" => Ev.clock[3] = Len(m.past)), Key(m))
Common(i) ==
  ReportAll(Clause("goes-on", Ev.out = "ok")
            \cup Clause("others-untouched", \A j \in 1..N : j # i => Ev.digs[j] = digs[j]), i)
Take == digs' = [i \in 1..N |-> Ev.digs[i]]
IsPerm == Len(Ev.perm) = Len(Ev.rows)
TMake == /\ More /\ Ev.op = "make" /\ KitNext /\ UNCHANGED act
         /\ st' = [st EXCEPT ![Ev.i] = Fresh(Ev.scene)] /\ views' = [views EXCEPT ![Ev.i] = Home(Len(Ev.rows))]
         /\ Common(Ev.i) /\ Judge(Ev.i, Fresh(Ev.scene), Home(Len(Ev.rows))) /\ Take
TSet == /\ More /\ Ev.op = "set" /\ KitNext /\ UNCHANGED <<act, views, seen>>
        /\ st' = [st EXCEPT ![Ev.i] = WithPart(@, Ev.part, Ev.v)]
        /\ Common(Ev.i) /\ Take
        /\ ReportAll(Clause("settings-move-nobody", Ev.digs[Ev.i] = digs[Ev.i]), Ev.i)
TAsk == /\ More /\ Ev.op = "ask" /\ KitNext /\ UNCHANGED <<act, views, seen, st>>
        /\ Common(Ev.i) /\ Take
        /\ ReportAll(Clause("asking-changes-nothing", Ev.digs[Ev.i] = digs[Ev.i]), Ev.i)
TStep == /\ More /\ Ev.op = "step" /\ KitNext /\ UNCHANGED <<act, views>>
         /\ st' = [st EXCEPT ![Ev.i] = SteppedN(@, Ev.n)]
         /\ Common(Ev.i) /\ Judge(Ev.i, st'[Ev.i], views[Ev.i]) /\ Take
TCopy == /\ More /\ Ev.op = "copy" /\ KitNext /\ UNCHANGED act
         /\ st' = [st EXCEPT ![Ev.j] = st[Ev.i]]
         /\ views' = [views EXCEPT ![Ev.j] = IF IsPerm THEN Turned(views[Ev.i], Ev.perm, Ev.shift) ELSE views[Ev.i]]
         /\ Common(Ev.j) /\ Judge(Ev.j, st[Ev.i], views'[Ev.j]) /\ Take
         /\ ReportAll(Clause("copies-are-exact", Ev.out = "ok" /\ Ev.perm = <<>> => Ev.digs[Ev.j] = Ev.digs[Ev.i]), Ev.i)
TOther == More /\ Ev.op \notin {"make", "set", "ask", "step", "copy"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act, seen, digs, views>>
TraceNext == TMake \/ TSet \/ TAsk \/ TStep \/ TCopy \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_vars
================================================================================
