---------------------------- MODULE MCPlacement ----------------------------
EXTENDS Placement, Json
CONSTANTS Coords, MaxGroup, MaxSupply, Radii, MaxRows
Walls == {<<>>, <<<<<<3, -4>>, <<3, 4>>>>>>}
Members(n, r) == [i \in 1..n |-> [id |-> Len(st) + i, body |-> <<<<0, 0, r>>>>]]
Supplies == UNION {[1..n -> {<<x, 0>> : x \in Coords}] : n \in 1..MaxSupply}
Init == st = <<>> /\ act = [op |-> "init"]
Next == \/ \E n \in 0..MaxGroup, r \in Radii, s \in Supplies, w \in Walls : Len(st) + n <= MaxRows /\ AddGroup(Members(n, r), s, w)
        \/ Mismatch
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
=============================================================================
