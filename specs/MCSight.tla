------------------------------- MODULE MCSight -------------------------------
(* One agent walks on a small grid between walls and exits; detection may run at any time. *)
EXTENDS Sight, Json
CONSTANTS Grid, Doors, Walls, Range
Init == /\ act = [op |-> "init"] /\ \E x \in Grid, f \in BOOLEAN : st = [x |-> x, target |-> NONE, follower |-> f]
Walk == \E x \in Grid : x # st.x /\ Len2(Sub(x, st.x)) <= 4 /\ st' = [st EXCEPT !.x = x] /\ act' = [op |-> "walk", x |-> x]
Detect == st' = AfterDetection(st, Detected(st.x, Doors, Walls, Range)) /\ act' = [op |-> "node"]
Next == Walk \/ Detect
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
TypeOK == st.target \in -1..(Len(Doors) - 1)
\* only followers get a target from here, and whoever got one is no follower any more and keeps it
Committed == st.target # NONE => ~st.follower
Stays == [][st.target # NONE => st'.target = st.target]_<<st, act>>
Sees == [][st'.target # st.target => st.follower /\ Visible(st.x, Doors[st'.target + 1], Walls)
                                     /\ \A c \in DOMAIN Doors : Visible(st.x, Doors[c], Walls) => Len2(Sub(st.x, Doors[c])) >= Len2(Sub(st.x, Doors[st'.target + 1]))]_<<st, act>>
=============================================================================
