------------------------------ MODULE SimLoop ------------------------------
(* Design of the simulation loop (SimulationBase.run, MultiAgentSimulation.update). One simulation executes commands;
   a command is "run" (check the exit condition, step, repeat) or "update" (one step). A step evaluates the logic tree
   in post order and then counts one iteration. A node may raise: the command ends there, the iteration does not count.
   Small steps are separate actions, in the order in which the code makes them observable. *)
EXTENDS TreeOps, Integers, TLC

VARIABLES st, act
\* st = [pc, mode, pos, it, order] ; pc \in {"idle","check","eval"} ; order = evaluation order of the current step
Init0(order) == [pc |-> "idle", mode |-> "none", pos |-> 1, it |-> 0, order |-> order]

Begin(mode) == /\ st.pc = "idle"
               /\ st' = [st EXCEPT !.pc = IF mode = "update" \/ mode = "forever" THEN "eval" ELSE "check", !.mode = mode, !.pos = 1]
\* exit condition evaluated: TRUE ends the run, FALSE starts a step
Check(res) == /\ st.pc = "check"
              /\ st' = IF res THEN [st EXCEPT !.pc = "idle", !.mode = "none"] ELSE [st EXCEPT !.pc = "eval", !.pos = 1]
AfterStep(s) == [s EXCEPT !.it = @ + 1, !.pos = 1,
                          !.pc = CASE s.mode = "update" -> "idle" [] s.mode = "forever" -> "eval" [] OTHER -> "check",
                          !.mode = IF s.mode = "update" THEN "none" ELSE s.mode]
Eval(n) == /\ st.pc = "eval" /\ st.pos <= Len(st.order) /\ n = st.order[st.pos]
           /\ st' = IF st.pos = Len(st.order) THEN AfterStep(st) ELSE [st EXCEPT !.pos = @ + 1]
Raise(n) == /\ st.pc = "eval" /\ st.pos <= Len(st.order) /\ n = st.order[st.pos]
            /\ st' = [st EXCEPT !.pc = "idle", !.mode = "none", !.pos = 1]
\* the tree is changed between two commands
Rewire(order) == st.pc = "idle" /\ st' = [st EXCEPT !.order = order]

----------------------------------------------------------------------------
PosInv == st.pc # "eval" => st.pos = 1
\* an iteration is counted exactly when the last node of the tree finished
CountStep == [][st'.it # st.it => /\ st'.it = st.it + 1 /\ st.pc = "eval" /\ st.pos = Len(st.order)]_<<st, act>>
\* a run never steps without having been told to go on
GoOn == [][st.mode = "run" /\ st.pc # "eval" /\ st'.pc = "eval" => st.pc = "check"]_<<st, act>>
=============================================================================
