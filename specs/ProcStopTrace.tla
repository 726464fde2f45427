--------------------------- MODULE ProcStopTrace ---------------------------
(* In-process executions log eval/stop/raise/end in order, with the queue content. The check of the exit flag is not
   observable: it is composed with the first evaluation of a step and with the end. Executions in a real process log
   only what came out of the queue ("drained"). *)
EXTENDS ProcStop, TraceKit
TraceInit == KitInit /\ act = "init" /\ st = Init0(Cfg(tid).size)
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ act' = o
Q == Clause("queue", Ev.queue = st'.queue)
Skip(c, info) == UNCHANGED st /\ Report(c, info)
Ready(s) == IF s.pc = "check" THEN [s EXCEPT !.pc = IF s.exit THEN "finish" ELSE "eval", !.pos = 1] ELSE s
TStop == IsOp("stop") /\ Stop /\ ReportAll(Q, st'.queue)
TEval == IsOp("eval") /\ LET r == Ready(st) IN
           IF r.pc = "eval" /\ r.pos = Ev.n THEN st' = [EvalEff(r) EXCEPT !.queue = Append(@, Ev.n)] /\ ReportAll(Q, st'.queue)
           ELSE Skip(IF r.pc = "finish" THEN "step-begun-after-stop" ELSE "evaluation-order", r)
TRaise == IsOp("raise") /\ LET r == Ready(st) IN
           IF r.pc = "eval" /\ r.pos = Ev.n THEN st' = [r EXCEPT !.pc = "finish", !.exit = TRUE] /\ ReportAll(Q, st'.queue)
           ELSE Skip(IF r.pc = "finish" THEN "step-begun-after-stop" ELSE "evaluation-order", r)
TEnd == IsOp("end") /\ LET r == Ready(st) IN
           IF r.pc = "finish" THEN st' = [r EXCEPT !.pc = "done", !.queue = Append(@, 0)]
                                   /\ ReportAll(Clause("end-marker", Ev.queue = st'.queue) \cup Clause("clean-end", Ev.out = "ok")
                                                \cup Clause("iteration-count", Ev.it = st'.it), st'.queue)
           ELSE Skip("ended-without-stop", r)
\* real process: what a consumer sees
Whole(q, size) == \A k \in DOMAIN q : q[k] = ((k - 1) % size) + 1
TDrained == IsOp("drained") /\ UNCHANGED st /\
   LET q == Ev.queue  m == Len(q) IN
   ReportAll(Clause("end-marker", m > 0 /\ q[m] = 0 /\ \A k \in 1..(m - 1) : q[k] # 0)
             \cup Clause("whole-steps", m > 0 => /\ Whole(SubSeq(q, 1, m - 1), st.size)
                                                 /\ (Ev.failing = 0 => (m - 1) % st.size = 0)
                                                 /\ (Ev.failing > 0 => m - 1 = Ev.failing))
             \cup Clause("stopped-before-start", Ev.early => m = 1)
             \cup Clause("process-ends", Ev.ended), q)
TOther == /\ More /\ Ev.op \notin {"stop", "eval", "raise", "end", "drained"}
          /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TStop \/ TEval \/ TRaise \/ TEnd \/ TDrained \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
