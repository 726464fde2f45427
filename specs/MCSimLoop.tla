----------------------------- MODULE MCSimLoop -----------------------------
EXTENDS SimLoop
CONSTANTS Size, MaxIt
Order == [i \in 1..Size |-> i]
VARIABLE stop       \* the environment's exit condition: once TRUE it stays TRUE
Init == st = Init0(Order) /\ act = "init" /\ stop = FALSE
Next ==
  \/ \E m \in {"run", "update"} : st.it < MaxIt /\ Begin(m) /\ act' = m /\ UNCHANGED stop
  \/ Check(stop) /\ act' = "check" /\ UNCHANGED stop
  \/ \E n \in 1..Size : Eval(n) /\ act' = "eval" /\ UNCHANGED stop
  \/ \E n \in 1..Size : Raise(n) /\ act' = "raise" /\ UNCHANGED stop
  \/ ~stop /\ stop' = TRUE /\ act' = "stop" /\ UNCHANGED st
Loop == (st.pc # "idle") /\ (Check(stop) \/ \E n \in 1..Size : Eval(n)) /\ act' = "go" /\ UNCHANGED stop
Spec == Init /\ [][Next]_<<st, act, stop>> /\ WF_<<st, act, stop>>(Loop) /\ WF_<<st, act, stop>>(stop' = TRUE /\ act' = "stop" /\ ~stop /\ UNCHANGED st)
Bound == st.it <= MaxIt
View == <<st, stop>>
\* every command ends once the exit condition holds
Ends == (st.pc # "idle") ~> (st.pc = "idle")
=============================================================================
