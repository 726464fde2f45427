------------------------------ MODULE MCDensity ------------------------------
(* A crowd on crossings; lines move, the crowd is measured with different cells. *)
EXTENDS Density, Json
CONSTANTS Lines, Cs
SetToSorted[S \in SUBSET Lines] == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o SetToSorted[S \ {m}]
Choices == {SetToSorted[S] : S \in {T \in SUBSET Lines : Cardinality(T) \in 2..4}}
Init == act = [op |-> "init"] /\ \E xs, ys \in Choices : st = [xs |-> xs, ys |-> ys]
Measure == \E o \in {"v1", "v2"}, c \in Cs : st' = st /\ act' = [op |-> o, c |-> c]
Next == Measure
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
TypeOK == \A k \in 2..Len(st.xs) : st.xs[k - 1] < st.xs[k]
\* the pieces of an agent add up to the whole agent, for each cell size
Whole == \A c \in Cs, k \in DOMAIN st.xs, l \in DOMAIN st.ys :
           LET is == Floor(st.xs[1], c)..Floor(st.xs[Len(st.xs)], c)  js == Floor(st.ys[1], c)..Floor(st.ys[Len(st.ys)], c) IN
           SumF([x \in is \X js |-> Overlap(Lo(st.xs, k), Hi(st.xs, k), c, x[1]) * Overlap(Lo(st.ys, l), Hi(st.ys, l), c, x[2])], is \X js) = Width(st.xs, k) * Width(st.ys, l)
\* Voronoi intervals tile the observed interval
Tile == SumF([k \in DOMAIN st.xs |-> Width(st.xs, k)], DOMAIN st.xs) = st.xs[Len(st.xs)] - st.xs[1] /\ \A k \in 2..Len(st.xs) : Lo(st.xs, k) = Hi(st.xs, k - 1)
=============================================================================
