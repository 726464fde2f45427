------------------------------ MODULE MCScenes ------------------------------
(* Scenes whose sizes change step by step. *)
EXTENDS Scenes, Json
CONSTANTS SIZES, RATIOS, EXITS
Kinds == {"outdoor", "hallway", "rounding", "avoid", "closed", "oneexit", "fourexits"}
Init == act = [op |-> "init"] /\ st = [kind |-> "outdoor", w |-> 256, h |-> 256, r |-> 20, e |-> 64, hall |-> 64]
Change == /\ \/ \E x \in SIZES : st' = [st EXCEPT !.w = x]
             \/ \E x \in SIZES : st' = [st EXCEPT !.h = x]
             \/ \E x \in RATIOS : st' = [st EXCEPT !.r = x]
             \/ \E x \in EXITS : st' = [st EXCEPT !.e = x]
             \/ \E k \in Kinds : st' = [st EXCEPT !.kind = k]
          /\ act' = [op |-> "scene", f |-> st']
Next == Change
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
S == Scene(st)
ExitSet == Range(S.exits)
Within == /\ \A w \in S.walls \cup ExitSet : InBox(w[1], S.domain) /\ InBox(w[2], S.domain) /\ Parallel(w)
          /\ \A k \in DOMAIN S.spawns : BoxIn(S.spawns[k], S.domain)
\* the boundary of a room is wall or exit
Closed == st.kind \in Room => Covered(Edges(S.domain), S.walls \cup ExitSet, 32)
\* no wall runs along an exit
Open == \A x \in ExitSet : \A p \in Pts(x, 32) : p # x[1] /\ p # x[2] => ~\E w \in S.walls : On(p, w)
Wide == st.kind \in {"avoid", "oneexit", "fourexits"} => \A x \in ExitSet : Abs(x[1][1] - x[2][1]) + Abs(x[1][2] - x[2][2]) = st.e
=============================================================================
