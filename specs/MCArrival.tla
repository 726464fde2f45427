------------------------------ MODULE MCArrival ------------------------------
(* Up to MaxN agents jump between places; they are observed only at updates. More may join. *)
EXTENDS Arrival, Json
CONSTANTS Places, Dom, Targets, MaxN
Init == /\ act = [op |-> "init"]
        /\ st = [a |-> <<[x |-> <<1, 1>>, active |-> TRUE]>>, reached |-> [t \in DOMAIN Targets |-> {}]]
Jump == \E i \in DOMAIN st.a, x \in Places : x # st.a[i].x /\ st' = [st EXCEPT !.a[i].x = x] /\ act' = [op |-> "jump", i |-> i, x |-> x]
Join == \E x \in Places : Len(st.a) < MaxN /\ st' = [st EXCEPT !.a = Append(@, [x |-> x, active |-> TRUE])] /\ act' = [op |-> "join", x |-> x]
Check == st' = [st EXCEPT !.a = AfterInside(@, Dom)] /\ act' = [op |-> "inside"]
Reach == st' = [st EXCEPT !.reached = AfterReach(@, st.a, Targets)] /\ act' = [op |-> "reach"]
Next == Jump \/ Join \/ Check \/ Reach
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
TypeOK == \A t \in DOMAIN Targets : st.reached[t] \subseteq DOMAIN st.a
\* once an agent has reached a target it stays so; agents are found active only inside
Monotone == [][\A t \in DOMAIN Targets : st.reached[t] \subseteq st'.reached[t]]_<<st, act>>
Exact == [][act'.op = "inside" => \A i \in DOMAIN st'.a : st'.a[i].active = Inside(st'.a[i].x, Dom)]_<<st, act>>
Quiet == [][act'.op \in {"inside", "reach"} => [i \in DOMAIN st.a |-> st.a[i].x] = [i \in DOMAIN st'.a |-> st'.a[i].x]]_<<st, act>>
\* the ray does not depend on the orientation or start of the polygon
Reversed(p) == [i \in DOMAIN p |-> p[Len(p) + 1 - i]]
Rotated(p) == [i \in DOMAIN p |-> p[IF i = Len(p) THEN 1 ELSE i + 1]]
Robust == \A x \in Places, t \in DOMAIN Targets : OnEdge(x, Targets[t]) \/ (Inside(x, Targets[t]) = Inside(x, Reversed(Targets[t])) /\ Inside(x, Targets[t]) = Inside(x, Rotated(Targets[t])))
=============================================================================
