------------------------------ MODULE ProcStop ------------------------------
(* Design of MultiAgentProcess: a worker runs the simulation loop until somebody sets the exit flag, then puts the
   end marker into the queue. The flag may be set at any moment by anybody, several times. A library error
   (CrowdDynamicsException) inside a step also ends the run. Nodes may put frames (their number n >= 1); 0 is the
   end marker. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act
\* pc: "check" "eval" "finish" "done"
Init0(size) == [pc |-> "check", pos |-> 1, it |-> 0, exit |-> FALSE, queue |-> <<>>, size |-> size, begunAfterExit |-> 0]
Stop == st' = [st EXCEPT !.exit = TRUE]
Check == /\ st.pc = "check"
         /\ st' = [st EXCEPT !.pc = IF st.exit THEN "finish" ELSE "eval", !.pos = 1]
EvalEff(s) == IF s.pos = s.size THEN [s EXCEPT !.pc = "check", !.pos = 1, !.it = @ + 1]
              ELSE [s EXCEPT !.pos = @ + 1]
Eval(n) == st.pc = "eval" /\ st.pos = n /\ st' = [EvalEff(st) EXCEPT !.queue = Append(@, n)]
LibError(n) == st.pc = "eval" /\ st.pos = n /\ st' = [st EXCEPT !.pc = "finish", !.exit = TRUE]
Finish == st.pc = "finish" /\ st' = [st EXCEPT !.pc = "done", !.queue = Append(@, 0)]
----------------------------------------------------------------------------
Marker == {k \in DOMAIN st.queue : st.queue[k] = 0}
EndOnceLast == /\ Cardinality(Marker) <= 1 /\ \A k \in Marker : k = Len(st.queue)
               /\ (st.pc = "done") = (Marker # {})
\* the flag is only seen between steps: the step in progress is finished, none is begun
WholeSteps == (st.pc = "done" /\ st.pos = 1) => Len(st.queue) = st.it * st.size + 1
NoNewStep == [][st.exit /\ st.pc = "check" => st'.pc # "eval"]_<<st, act>>
StepsAfterStop == [][st.exit => st'.it <= st.it + 1]_<<st, act>>
=============================================================================
