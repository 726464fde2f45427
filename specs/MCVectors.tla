------------------------------ MODULE MCVectors ------------------------------
(* All pairs of lattice vectors of a small square; a walk over angles. *)
EXTENDS Vectors, Json
CONSTANTS R, N
V == {<<x, y>> : x \in -R..R, y \in -R..R}
Init == act = [op |-> "init"] /\ st = [v |-> <<0, 0>>, n |-> 0]
Choose == st.n = 0 /\ \E v \in V : st' = [st EXCEPT !.v = v] /\ act' = [op |-> "vector", v |-> v]
Turn == \E k \in {-1, 1, 5} : Abs(st.n + k) <= N /\ st' = [st EXCEPT !.n = @ + k] /\ act' = [op |-> "wrap", n |-> st.n + k]
Next == Choose \/ Turn
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
Turns == LET v == st.v IN Rot90(Rot270(v)) = v /\ Rot90(Rot90(v)) = <<-v[1], -v[2]>> /\ Dot(v, Rot90(v)) = 0 /\ Cross(v, Rot90(v)) = Len2(v) /\ Cross(v, Rot270(v)) = -Len2(v)
Products == \A w \in V : /\ Dot(st.v, w) = Dot(w, st.v) /\ Cross(st.v, w) = -Cross(w, st.v)
                         /\ Dot(st.v, w) * Dot(st.v, w) + Cross(st.v, w) * Cross(st.v, w) = Len2(st.v) * Len2(w)
                         /\ Dot(Rot90(st.v), Rot90(w)) = Dot(st.v, w)
Wraps == Wrap(st.n) \in -8..8 /\ (Wrap(st.n) - st.n) % 16 = 0 /\ Wrap(Wrap(st.n)) = Wrap(st.n) /\ Cos16(Wrap(st.n)) = Cos16(st.n)
             /\ Abs(Len2(<<Cos16(st.n), Sin16(st.n)>>) - 100000000) < 20000
Meeting == \A w \in V : \A r \in 1..2 : Meets(st.v, w, r) => \E t \in 1..(8 * R * R) : LET p == <<8 * R * R * st.v[1] + 4 * t * w[1], 8 * R * R * st.v[2] + 4 * t * w[2]>> IN Len2(p) <= (8 * R * R * (r + 1)) * (8 * R * R * (r + 1))
=============================================================================
