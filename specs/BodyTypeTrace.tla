---------------------------- MODULE BodyTypeTrace ----------------------------
EXTENDS BodyType, TraceKit

Settings == {"ratio_rt", "ratio_rs", "ratio_ts", "radius_mean", "radius_scale", "mass_mean", "mass_scale", "target_velocity_mean", "target_velocity_scale"}

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [a |-> [none |-> 0], body |-> ""]
IsOp(o) == More /\ Ev.op = o /\ KitNext
Judge(a, raw) ==
  LET new == Ev.a
      drawn == \A d \in Drawn : DrawnOk(a, raw, new, d)
  IN ReportAll(Clause("accepted", Ev.out = "ok")
          \cup (IF Ev.out # "ok" THEN {} ELSE
               Clause("drawn-once-in-range", drawn)
          \cup Clause("proportions", \A p \in Parts : PartOk(a, raw, new, p))
          \cup Clause("inertia", InertiaRule(a, raw, new))
          \cup Clause("kept-as-given", OthersOk(raw, new))), raw)
Zero(a) == \A n \in Derived : a[n] = 0
TNew == /\ IsOp("new")
        /\ ReportAll(Clause("fresh-agent", Zero(Ev.base) /\ (DOMAIN st.a = {"none"} \/ act.op # "new" \/ Ev.base = act.base)), "zero measures")
        /\ Judge(Ev.base, Assign(Assign(Ev.base, Ev.kw), Ev.conf))
        /\ st' = [a |-> Ev.a, body |-> Ev.body] /\ act' = [op |-> "new", base |-> Ev.base, last |-> Ev.body]
TSet == /\ IsOp("set")
        /\ Judge(st.a, Assign(st.a, Ev.kw))
        /\ st' = [st EXCEPT !.a = Ev.a] /\ act' = act
TBody == /\ IsOp("body")
         /\ IF st.body = "" THEN Judge(st.a, Assign(st.a, Ev.conf))
            ELSE ReportAll(Clause("body-type-once", (Ev.out = "raise:TraitError" \/ (Ev.out = "ok" /\ Ev.body \in {st.body, act.last})) /\ Ev.a = st.a), st.a)
         /\ st' = [a |-> Ev.a, body |-> IF st.body = "" THEN Ev.body ELSE st.body] /\ act' = [act EXCEPT !.last = Ev.body]
TBad == /\ IsOp("bad")
        /\ ReportAll(Clause("invalid-rejected", Ev.out = "raise:TraitError" /\ Ev.a = st.a), st.a)
        /\ st' = [st EXCEPT !.a = Ev.a] /\ act' = act
\* the record of the agent holds its attributes; reading it back gives an agent with the same record
TRecord == /\ IsOp("record")
           /\ ReportAll(Clause("record", Ev.out = "ok" /\ \A n \in DOMAIN Ev.rec : Ev.rec[n] = st.a[n])
                   \cup Clause("record-complete", Ev.out # "ok" \/ \A n \in DOMAIN st.a : n \in DOMAIN Ev.rec \/ n \in Settings)
                   \cup Clause("restore", Ev.out # "ok" \/ (Ev.back = "ok" /\ Ev.same))
                   \cup Clause("restore-one-row", Ev.two = "raise:ValueError" /\ Ev.zero = "raise:ValueError"), st.a)
           /\ UNCHANGED <<st, act>>
TOther == More /\ Ev.op \notin {"new", "set", "body", "bad", "record"} /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TNew \/ TSet \/ TBody \/ TBad \/ TRecord \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
