-------------------------------- MODULE MCNav --------------------------------
(* A walker that may start in any free cell of a walled grid and follows a field of decreasing geodesic distance. Whatever
   choices the field leaves, it arrives, stays off the walls and never turns back. Obstacle handling may hold it off walls. *)
EXTENDS Nav, Json
CONSTANTS W, H, Walls, Goals
Cells == (0..W-1) \X (0..H-1)
Free == Cells \ Walls
S == [c \in Free |-> Dist(c, Goals, Free)]
Init == act = [op |-> "init"] /\ \E c \in Free : S[c] <= Cardinality(Free) /\ st = c
Step == st \notin Goals /\ \E d \in Neigh(st, Free) : S[d] < S[st] /\ st' = d /\ act' = [op |-> "step", from |-> st, to |-> d]
Next == Step
Spec == Init /\ [][Next]_<<st, act>> /\ WF_<<st, act>>(Next)
TypeOK == st \in Free
Arrives == <>(st \in Goals)
Descends == [][S[st'] = S[st] - 1]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
=============================================================================
