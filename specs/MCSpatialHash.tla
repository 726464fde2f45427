--------------------------- MODULE MCSpatialHash ---------------------------
EXTENDS SpatialHash, Json
CONSTANTS Coords, Dim, Cells, Vals, MaxItems, Radii, Kinds
Points == [1..Dim -> Coords]
Init == /\ \E cs \in Cells, k \in Kinds : st = [i \in DOMAIN cs |-> NewGrid(cs[i], Dim, k)]
        /\ act = [op |-> "init"]
Total == FoldFunctionOnSet(LAMBDA g, n : Len(g.items) + n, 0, st, DOMAIN st)
DoPut == \E i \in DOMAIN st, p \in Points, v \in Vals : Total < MaxItems /\ CanPut(st[i], p, v) /\ Put(i, p, v)
DoGet == \E i \in DOMAIN st, p \in Points : Get(i, p)
DoNear == \E i \in DOMAIN st, p \in Points, r \in Radii : Near(i, p, r)
DoBad == \E i \in DOMAIN st, how \in {"none", "scalar", "text", "mixed"} : Bad(i, how)
Next == DoPut \/ DoGet \/ DoNear \/ DoBad
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
CompleteInv == \A i \in DOMAIN st, p \in Points, r \in Radii : Complete(st[i], p, r)
SoundInv == \A i \in DOMAIN st, p \in Points, r \in Radii : Sound(st[i], p, r)
FoundInv == \A i \in DOMAIN st : Found(st[i])
ZeroInv == \A i \in DOMAIN st, p \in Points : GetIsNearZero(st[i], p)
\* operations on one grid never show in another
Independent == [][\A i \in DOMAIN st : (("g" \in DOMAIN act' /\ act'.g # i) => st'[i] = st[i])]_<<st, act>>
OnlyPutChanges == [][act'.op # "put" => st' = st]_<<st, act>>
Cells1 == {<<2>>, <<3>>}
Cells2 == {<<2, 3>>}
=============================================================================
