---------------------------- MODULE SpatialHash ----------------------------
(* Design of the spatial hash (crowddynamics/core/block_list.py).
   State: a sequence of independent grids, each remembering every insertion <<point, value>> in order.
   Coordinates and cell sizes are integers in a common dyadic unit, so cell indices are exact. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Functions, FiniteSetsExt, TLC

VARIABLES st, act

NewGrid(cell, dim, kind) == [cell |-> cell, dim |-> dim, kind |-> kind, items |-> <<>>]

Key(cell, p) == [i \in DOMAIN p |-> p[i] \div cell]        \* floor division
AbsI(x) == IF x < 0 THEN -x ELSE x
KeyDist(a, b) == Max({0} \cup {AbsI(a[i] - b[i]) : i \in DOMAIN a})
PDist(a, b) == KeyDist(a, b)                                 \* Chebyshev distance of points

ValuesWhere(g, T(_)) ==
  LET sel == SelectSeq(g.items, LAMBDA it : T(it[1])) IN [i \in DOMAIN sel |-> sel[i][2]]

SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)
BagEq(s, t) == Len(s) = Len(t) /\ SortInts(s) = SortInts(t)

\* value of grid[p]: the cell's values in insertion order (in sorted order for a sorted container)
GetRes(g, p) ==
  LET v == ValuesWhere(g, LAMBDA pt : Key(g.cell, pt) = Key(g.cell, p))
  IN IF g.kind = "sorted" THEN SortInts(v) ELSE v
\* value of grid.nearest(p, r) as a bag
NearRes(g, p, r) == ValuesWhere(g, LAMBDA pt : KeyDist(Key(g.cell, pt), Key(g.cell, p)) <= r)

\* a sorted container only accepts appends that keep it sorted (the caller's obligation)
CanPut(g, p, v) == g.kind # "sorted" \/ \A k \in DOMAIN GetRes(g, p) : GetRes(g, p)[k] <= v
Put(i, p, v) == st' = [st EXCEPT ![i].items = Append(@, <<p, v>>)] /\ act' = [op |-> "put", g |-> i, p |-> p, v |-> v]
Get(i, p) == UNCHANGED st /\ act' = [op |-> "get", g |-> i, p |-> p]
Near(i, p, r) == UNCHANGED st /\ act' = [op |-> "near", g |-> i, p |-> p, r |-> r]
Bad(i, how) == UNCHANGED st /\ act' = [op |-> "bad", g |-> i, how |-> how]

----------------------------------------------------------------------------
(* Design properties, for every grid g, query point p and radius r *)
\* the neighbourhood query misses nothing that lies within r cells' length of the query point
Complete(g, p, r) ==
  \A v \in ToSet([k \in DOMAIN g.items |-> g.items[k][2]]) :
    LET near == NearRes(g, p, r)
        close == SelectSeq(g.items, LAMBDA it : it[2] = v /\ PDist(it[1], p) <= r * g.cell)
    IN Len(SelectSeq(near, LAMBDA x : x = v)) >= Len(close)
\* and returns nothing farther than r + 1 cells' length
Sound(g, p, r) ==
  \A k \in DOMAIN g.items : KeyDist(Key(g.cell, g.items[k][1]), Key(g.cell, p)) <= r =>
     PDist(g.items[k][1], p) < (r + 1) * g.cell
\* every value is found from its own point, exactly as often as it was stored in that cell
Found(g) == \A k \in DOMAIN g.items : \E j \in DOMAIN GetRes(g, g.items[k][1]) : GetRes(g, g.items[k][1])[j] = g.items[k][2]
GetIsNearZero(g, p) == BagEq(GetRes(g, p), NearRes(g, p, 0))
=============================================================================
