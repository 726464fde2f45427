------------------------------ MODULE MCBreakup ------------------------------
(* Geometries drawn one after the other on a small grid. *)
EXTENDS Breakup, Json
CONSTANTS N, Depth
P0 == {0, 1}
Prim(t, ps, hs) == [t |-> t, pts |-> ps, holes |-> hs, parts |-> <<>>]
Box(a, b) == <<<<a, a>>, <<b, a>>, <<b, b>>, <<a, b>>>>
Shapes == <<Prim("Polygon", Box(0, N), <<Box(1, N - 1)>>), Prim("Polygon", Box(2, N - 2), <<>>), Prim("LineString", <<<<0, 0>>, <<N, N>>, <<N, 1>>>>, <<>>), Prim("Point", <<<<1, 1>>>>, <<>>),
            Prim("Polygon", <<<<0, 0>>, <<N, 0>>, <<0, N>>>>, <<>>)>>
Multi(i, j) == [t |-> "Multi", pts |-> <<>>, holes |-> <<>>, parts |-> <<Shapes[i], Shapes[j]>>]
Grid0 == [p \in (0..N) \X (0..N) |-> 0]
Init == st = [n |-> 0, g |-> Grid0] /\ act = [op |-> "init"]
Draw(v) == \E i \in DOMAIN Shapes : st' = [n |-> st.n + 1, g |-> After(st.g, Shapes[i], v)] /\ act' = [op |-> "draw", g |-> Shapes[i], value |-> v]
DrawMulti(v) == \E i, j \in DOMAIN Shapes : i # j /\ st' = [n |-> st.n + 1, g |-> After(st.g, Multi(i, j), v)] /\ act' = [op |-> "draw", g |-> Multi(i, j), value |-> v]
Next == st.n < Depth /\ (Draw(st.n + 1) \/ DrawMulti(st.n + 1))
Spec == Init /\ [][Next]_<<st, act>>
Rows(g) == [y \in 1..(N + 1) |-> [x \in 1..(N + 1) |-> g[<<x - 1, y - 1>>]]]
Emit == PrintT("EDGE " \o ToJson([s |-> [n |-> st.n, g |-> Rows(st.g)], a |-> act', t |-> [n |-> st'.n, g |-> Rows(st'.g)]]))
View == st
TypeOK == \A p \in DOMAIN st.g : st.g[p] \in 0..Depth
\* a collection is the union of its parts, in any order
Union == \A i, j \in DOMAIN Shapes, p \in DOMAIN st.g : Drawn(p, Multi(i, j)) = Drawn(p, Multi(j, i)) /\ (Drawn(p, Multi(i, j)) = "yes") = (Drawn(p, Shapes[i]) = "yes" \/ Drawn(p, Shapes[j]) = "yes")
\* a closed shell has as many segments as corners; taking apart and counting agree
Counts == \A i \in DOMAIN Shapes : Len(Flagged(Shapes[i], 1)) = (IF Shapes[i].t = "Point" THEN 2 ELSE Len(Segments(Shapes[i])) + 2 * (1 + Len(Shapes[i].holes)))
\* drawing changes only what is drawn
Local == [][\A p \in DOMAIN st.g : st'.g[p] \in {st.g[p], act'.value}]_<<st, act>>
=============================================================================
