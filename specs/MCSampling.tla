------------------------------ MODULE MCSampling ------------------------------
(* Why the sampling schemes are uniform: drawing a triangle of any fan by its share of the area and then one of its four
   quarters evenly gives every piece its share, whatever the vertex the fan starts from; and cumulative weights choose piece k
   for exactly its share of the draws. Points are added one by one; the hull of all is what is sampled. *)
EXTENDS Sampling, Json
CONSTANTS Grid, MaxPoints
Init == act = [op |-> "init"] /\ st = {}
Add1 == \E x \in Grid \ st : Cardinality(st) < MaxPoints /\ st' = st \cup {x} /\ act' = [op |-> "add", x |-> x]
Next == Add1
Spec == Init /\ [][Next]_<<st, act>>
Fat == Cardinality(st) >= 3 /\ \E x, y, z \in st : Cross(Sub(y, x), Sub(z, x)) # 0
H == Hull(st)
SumA(f) == LET s[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE s[i - 1] + Area2(f[i]) IN s[Len(f)]
\* the hull is convex and holds every point; each fan cuts it without rest
HullOk == Fat => (\A x \in st : InConvex(x, H, 0)) /\ {H[i] : i \in DOMAIN H} \subseteq st
FansOk == Fat => \A r \in DOMAIN H : SumA(Fan(H, r)) = Area2(H)
\* the search for a draw x in 0..W-1 among cumulative weights hits piece k in exactly its share of the draws
WeightsOk == Fat => LET f == Fan(H, 1)  c == [k \in DOMAIN f |-> LET s[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE s[i - 1] + Area2(f[i]) IN s[k]] IN
                    \A k \in DOMAIN f : Cardinality({x \in 0..(Area2(H) - 1) : x < c[k] /\ (k > 1 => x >= c[k - 1])}) = Area2(f[k])
Emit == TRUE
View == st
=============================================================================
