----------------------------- MODULE MCDistances -----------------------------
(* A body walks on a lattice around another one and a wall; distances are compared through squares. *)
EXTENDS Distances, Json
CONSTANTS R, W
P == {<<x, y>> : x \in -R..R, y \in -R..R}
Wall == <<<<0, 0>>, W>>
Body(x) == <<[o |-> x, r |-> 2], [o |-> Add(x, <<1, 1>>), r |-> 1], [o |-> Add(x, <<-1, -1>>), r |-> 1]>>
Other == <<[o |-> <<0, 1>>, r |-> 1], [o |-> <<2, 1>>, r |-> 2], [o |-> <<-2, 1>>, r |-> 1]>>
Init == act = [op |-> "init"] /\ st = <<R, R>>
Step == \E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>} : Add(st, d) \in P /\ st' = Add(st, d)
        /\ \E o \in {"discs", "bodies", "wall", "bodywall"} :
              act' = [op |-> o, a |-> IF o \in {"discs", "wall"} THEN Body(Add(st, d))[1] ELSE Body(Add(st, d)),
                      b |-> IF o = "discs" THEN Other[2] ELSE Other, w |-> Wall]
Next == Step
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
\* ten thousand times the squared distance from the wall, compared to points of the wall
Closest == \A k \in 0..8 : LET p == <<(k * W[1]), (k * W[2])>>  q == Sub(<<8 * st[1], 8 * st[2]>>, p) IN
             IF Where(st, Wall) = "between" THEN 64 * Sq(Side(st, Wall)) <= Len2(q) * Len2(W) ELSE 64 * Len2(Away(st, Wall)) <= Len2(q)
Outward == Away(st, Wall) # <<0, 0>> => Dot(Away(st, Wall), Sub(st, Wall[1])) >= 0 /\ Dot(Away(st, Wall), Sub(st, Wall[2])) >= 0
OnWall == (Away(st, Wall) = <<0, 0>>) = (Side(st, Wall) = 0 /\ Along(st, Wall) >= 0 /\ Along(st, Wall) <= Len2(W))
Reversed == LET V == <<Wall[2], Wall[1]>> IN
            (Where(st, Wall) = "between") = (Where(st, V) = "between") /\ Away(st, V) = Away(st, Wall)
=============================================================================
