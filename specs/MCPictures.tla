------------------------------ MODULE MCPictures ------------------------------
(* Geometries drawn one after the other on a figure; ranges set in between. *)
EXTENDS Pictures, Json
CONSTANTS Depth
P(t, ps) == [t |-> t, pts |-> ps, holes |-> <<>>, parts |-> <<>>]
M(ps) == [t |-> "Multi", pts |-> <<>>, holes |-> <<>>, parts |-> ps]
Pt == P("Point", <<<<1, 2>>>>)
Ln == P("LineString", <<<<0, 0>>, <<3, 1>>, <<-2, 4>>>>)
Po == [P("Polygon", <<<<0, 0>>, <<9, 0>>, <<9, 9>>, <<0, 9>>>>) EXCEPT !.holes = <<<<<<1, 1>>, <<2, 1>>, <<2, 2>>>>>>]
Shapes == <<Pt, Ln, Po, M(<<Pt, Po>>), M(<<Ln, M(<<Po, Ln>>), Pt>>), M(<<>>)>>
Ranges == {<<<<0, 8>>, <<0, 4>>>>, <<<<-3, 5>>, <<2, 2>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<-9, -1>>, <<-20, 20>>>>}
VARIABLE rg
Init == st = <<>> /\ act = [op |-> "init"] /\ rg = <<>>
Draw == \E i \in DOMAIN Shapes : st' = st \o Glyphs(Shapes[i], "", i) /\ act' = [op |-> "geom", g |-> Shapes[i], tag |-> i] /\ rg' = rg
Aspect == \E r \in Ranges, a \in {<<1, 1>>, <<3, 1>>, <<1, 2>>}, m \in {0, 1, 5} :
            /\ st' = st /\ rg' = <<r, a, m>>
            /\ act' = [op |-> "aspect", x |-> r[1], y |-> r[2], an |-> a[1], ad |-> a[2], m |-> m]
Next == (Len(st) < Depth /\ Draw) \/ Aspect
Spec == Init /\ [][Next]_<<st, act, rg>>
Emit == PrintT("EDGE " \o ToJson([s |-> [n |-> Len(st), r |-> rg], a |-> act', t |-> [n |-> Len(st'), r |-> rg']]))
View == <<Len(st), rg>>
\* drawing only adds
Adds == [][SubSeq(st', 1, Len(st)) = st]_<<st, act, rg>>
TypeOK == \A i \in DOMAIN st : st[i].k \in {"marker", "line", "patch"}
K == 600
\* the range holds the data with its margin, in the aspect asked for, and is as small as that allows
Holds == rg # <<>> => \A d \in {<<6, 6>>, <<8, 3>>, <<3, 8>>} :
           LET s == Shown(rg[1][1], rg[1][2], rg[3], rg[2][1], rg[2][2], d[1], d[2], 1, K) IN
           /\ s.w >= s.W - 1 /\ s.h >= s.H - 1 /\ (s.w = s.W \/ s.h = s.H)
           /\ Abs(s.w * rg[2][2] * d[2] - s.h * rg[2][1] * d[1]) <= Max(rg[2][2] * d[2], rg[2][1] * d[1])
=============================================================================
