----------------------------- MODULE MCFollowing -----------------------------
(* A follower and two leaders that move between spots around a wall; decisions at any time. *)
EXTENDS Following, Json
CONSTANTS Spots1, Spots2, Walls, SightLen, Herding
Follower(f) == [x |-> <<0, 0>>, v |-> <<1, 2>>, target |-> NONE, leader |-> NONE, familiar |-> f, isl |-> FALSE, isf |-> TRUE]
Leader(s, t) == [x |-> s[1], v |-> s[2], target |-> t, leader |-> NONE, familiar |-> NONE, isl |-> TRUE, isf |-> FALSE]
Init == act = [op |-> "init"] /\ \E f \in {NONE, 2}, s \in Spots1, u \in Spots2 : st = <<Follower(f), Leader(s, 0), Leader(u, 1)>>
MoveL(k, S) == \E s \in S : s # <<st[k].x, st[k].v>> /\ st' = [st EXCEPT ![k].x = s[1], ![k].v = s[2]] /\ act' = [op |-> "move", k |-> k, x |-> s[1], v |-> s[2]]
Step == st' = (IF Herding THEN FollowHerd(st, Walls, SightLen, SightLen, 1).agents ELSE FollowLeaders(st, Walls, SightLen)) /\ act' = [op |-> IF Herding THEN "herd" ELSE "follow"]
Next == MoveL(2, Spots1) \/ MoveL(3, Spots2) \/ Step
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
F == st[1]
TypeOK == F.target \in {NONE, 0, 1, 2} /\ F.leader \in {NONE, 1, 2}
\* leaders never change; a leader is only remembered after it was seen heading away
LeadersStay == [][\A k \in {2, 3} : st'[k].target = st[k].target /\ st'[k].leader = NONE]_<<st, act>>
Remember == [][st'[1].leader # F.leader => Sees(st, 0, st'[1].leader, Walls) /\ Away(F, st[st'[1].leader + 1]) /\ Dist(st, 0, st'[1].leader) <= Sq(SightLen)]_<<st, act>>
NeverForgotten == [][F.leader # NONE => st'[1].leader # NONE]_<<st, act>>
\* right after a decision: without memory the familiar exit; following means no target of one's own
Decision == [][act'.op = "follow" => /\ st'[1].leader = NONE => st'[1].target = F.familiar
                                     /\ st'[1].leader # NONE => st'[1].target \in {NONE, st'[1].leader - 1}]_<<st, act>>
Stable == [][act'.op \in {"follow", "herd"} => FollowLeaders(FollowLeaders(st, Walls, SightLen), Walls, SightLen) = FollowLeaders(st, Walls, SightLen)]_<<st, act>>
Clear == ClearScene(st)
=============================================================================
