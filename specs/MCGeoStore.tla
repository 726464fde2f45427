----------------------------- MODULE MCGeoStore -----------------------------
EXTENDS GeoStore, Json
CONSTANTS Files, Names, Values
Init == st = [f \in Files |-> Absent] /\ act = [op |-> "init"]
NamesSeq == SetToSortSeq(Names, LAMBDA a, b : a < b)
Pairs == UNION {{[i \in DOMAIN ns |-> <<ns[i], vs[i]>>] : vs \in [DOMAIN ns -> Values]} :
                ns \in {SetToSortSeq(S, LAMBDA a, b : a < b) : S \in SUBSET Names}}
Next == \/ \E f \in Files, m \in Pairs : Save(f, m)
        \/ \E f \in Files : Load(f) \/ Unlink(f) \/ Junk(f)
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
=============================================================================
