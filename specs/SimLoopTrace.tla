---------------------------- MODULE SimLoopTrace ----------------------------
(* Events: begin(mode), check(it,res), eval(n,it), raise(n,it), end(out,it), rewire(order), meta(..).
   An event that is not the next thing the design does is reported and the machine is re-synchronised at the next
   command. *)
EXTENDS SimLoop, TraceKit

TraceInit == KitInit /\ act = "init" /\ st = Init0(Cfg(tid).order)
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ act' = o
Iter == Clause("iteration-count", Ev.it = st.it)
Skip(c, info) == UNCHANGED st /\ Report(c, info)
TBegin == IsOp("begin") /\ st' = [[st EXCEPT !.pc = "idle"] EXCEPT !.pc = IF Ev.mode = "run" THEN "check" ELSE "eval",
                                                                    !.mode = Ev.mode, !.pos = 1]
TCheck == IsOp("check") /\ IF ENABLED Check(Ev.res) THEN Check(Ev.res) /\ ReportAll(Iter, st.it) ELSE Skip("checks-before-each-step", st)
TEval == IsOp("eval") /\ IF ENABLED Eval(Ev.n) THEN Eval(Ev.n) /\ ReportAll(Iter, st.it) ELSE Skip("evaluation-order", st)
TRaise == IsOp("raise") /\ IF ENABLED Raise(Ev.n) THEN Raise(Ev.n) /\ ReportAll(Iter, st.it) ELSE Skip("evaluation-order", st)
\* the command returned (or its error reached the caller)
TEnd == IsOp("end") /\ st' = [st EXCEPT !.pc = "idle", !.mode = "none", !.pos = 1, !.it = Ev.it]
        /\ ReportAll(Clause("stops", st.pc = "idle") \cup Iter \cup Clause("error-reaches-caller", Ev.out = Ev.want), st)
TRewire == IsOp("rewire") /\ st' = [st EXCEPT !.order = Ev.order]
TMeta == IsOp("meta") /\ UNCHANGED st
         /\ ReportAll(Clause("initial-data", Ev.data = <<0, 0, 0>>) \cup Clause("metadata", Ev.ok = <<TRUE, TRUE, TRUE>>), "")
TOther == /\ More /\ Ev.op \notin {"begin", "check", "eval", "raise", "end", "rewire", "meta"}
          /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TBegin \/ TCheck \/ TEval \/ TRaise \/ TEnd \/ TRewire \/ TMeta \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
