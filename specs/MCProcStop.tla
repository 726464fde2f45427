----------------------------- MODULE MCProcStop -----------------------------
EXTENDS ProcStop, Json
CONSTANTS Size, MaxIt
Init == st = Init0(Size) /\ act = [op |-> "init"]
Work == \/ Check /\ act' = [op |-> "check"]
        \/ \E n \in 1..Size : Eval(n) /\ act' = [op |-> "eval", n |-> n]
        \/ Finish /\ act' = [op |-> "end"]
Next == \/ Work
        \/ Stop /\ act' = [op |-> "stop"]
        \/ \E n \in 1..Size : LibError(n) /\ act' = [op |-> "raise", n |-> n]
Spec == Init /\ [][Next]_<<st, act>> /\ WF_<<st, act>>(Work)
Bound == st.it <= MaxIt
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
StopEnds == st.exit ~> (st.pc = "done")
=============================================================================
