------------------------------- MODULE Scenes -------------------------------
(* The example scenes (crowddynamics/examples): geometry and crowds. Lengths in 1/64; a scene is [kind, w, h, r, e, hall],
   r in fortieths. Points <<x, y>>, walls and exits axis-parallel segments <<p, q>>, regions as [lo, hi] boxes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in DOMAIN s}
U == 64
Seg(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
Box(x, y, w, h) == [lo |-> <<x, y>>, hi |-> <<x + w, y + h>>]
Corners(b) == {b.lo, b.hi, <<b.lo[1], b.hi[2]>>, <<b.hi[1], b.lo[2]>>}
Edges(b) == {<<b.lo, <<b.hi[1], b.lo[2]>>>>, <<<<b.hi[1], b.lo[2]>>, b.hi>>, <<b.lo, <<b.lo[1], b.hi[2]>>>>, <<<<b.lo[1], b.hi[2]>>, b.hi>>}
On(p, s) == /\ Min(s[1][1], s[2][1]) <= p[1] /\ p[1] <= Max(s[1][1], s[2][1])
            /\ Min(s[1][2], s[2][2]) <= p[2] /\ p[2] <= Max(s[1][2], s[2][2])
OnAny(p, S) == \E s \in S : On(p, s)
Strictly(p, s) == On(p, s) /\ p # s[1] /\ p # s[2]
InBox(p, b) == b.lo[1] <= p[1] /\ p[1] <= b.hi[1] /\ b.lo[2] <= p[2] /\ p[2] <= b.hi[2]
BoxIn(a, b) == InBox(a.lo, b) /\ InBox(a.hi, b)
Parallel(s) == s[1][1] = s[2][1] \/ s[1][2] = s[2][2]
\* points of a segment at most step apart, with both ends and the middle
Pts(s, step) == LET dx == s[2][1] - s[1][1]  dy == s[2][2] - s[1][2]  n == Max(2, 2 * ((Max(Abs(dx), Abs(dy)) + 2 * step - 1) \div (2 * step))) IN
                {<<s[1][1] + (dx * k) \div n, s[1][2] + (dy * k) \div n>> : k \in 0..n}
Covered(S, T, step) == \A s \in S : \A p \in Pts(s, step) : OnAny(p, T)
SameSet(S, T, step) == Covered(S, T, step) /\ Covered(T, S, step)

(* --- the scenes --- *)
FourWalls(e) == LET k(x, y) == <<U * x, U * y>> IN
  {<<k(0, 10), k(0, 0)>>, <<k(0, 0), k(87, 0)>>, <<k(20, 0), k(20, 40)>>, <<k(20, 20), k(40, 20)>>, <<k(60, 0), k(60, 20)>>,
   <<<<0, 10 * U + e>>, k(0, 80)>>, <<k(0, 80), k(6, 80)>>, <<k(0, 60), k(40, 60)>>,
   <<<<6 * U + e, 80 * U>>, k(100, 80)>>, <<k(100, 80), <<100 * U, 50 * U + e>>>>, <<k(60, 60), k(100, 60)>>, <<k(70, 40), k(70, 60)>>,
   <<k(100, 50), k(100, 0)>>, <<k(100, 0), <<87 * U + e, 0>>>>}
Scene(f) ==
  LET w == f.w  h == f.h  d == Box(0, 0, w, h)
      part == (f.r * w) \div 40  mid == h \div 2
      lower == (h - f.e) \div 2  upper == (h + f.e) \div 2 IN
  CASE f.kind = "outdoor" -> [domain |-> d, walls |-> {}, exits |-> <<>>, spawns |-> <<d>>]
    [] f.kind = "hallway" -> [domain |-> d, walls |-> {Seg(0, 0, w, 0), Seg(0, h, w, h)}, exits |-> <<Seg(0, 0, 0, h), Seg(w, 0, w, h)>>,
                              spawns |-> <<Box(0, 0, part, h), Box(w - part, 0, part, h)>>]
    [] f.kind = "rounding" -> [domain |-> d, walls |-> {Seg(0, 0, w, 0), Seg(w, 0, w, h), Seg(0, h, w, h), Seg(0, 0, 0, mid), Seg(0, mid, part, mid)},
                               exits |-> <<Seg(0, mid, 0, h)>>, spawns |-> <<Box(0, 0, w \div 2, mid)>>]
    [] f.kind = "avoid" -> [domain |-> d, walls |-> {Seg(0, 0, w, 0), Seg(w, f.e, w, h), Seg(0, h, w, h), Seg(0, 0, 0, h), Seg(part, 0, part, mid)},
                            exits |-> <<Seg(w, 0, w, f.e)>>, spawns |-> <<Box(0, mid, part, mid), Box(0, 0, part, h)>>]
    [] f.kind = "closed" -> [domain |-> d, walls |-> Edges(d), exits |-> <<>>, spawns |-> <<d>>]
    [] f.kind = "oneexit" -> [domain |-> Box(0, 0, w + f.hall, h), walls |-> {Seg(0, 0, w, 0), Seg(0, 0, 0, h), Seg(0, h, w, h)}
                                 \cup Edges(Box(w, 0, f.hall, lower)) \cup Edges(Box(w, upper, f.hall, lower)),
                              exits |-> <<Seg(w + f.hall, lower, w + f.hall, upper)>>, spawns |-> <<d>>]
    [] f.kind = "fourexits" -> [domain |-> Box(0, 0, 100 * U, 80 * U), walls |-> FourWalls(f.e),
                                exits |-> <<Seg(0, 10 * U, 0, 10 * U + f.e), Seg(6 * U, 80 * U, 6 * U + f.e, 80 * U),
                                            Seg(100 * U, 50 * U + f.e, 100 * U, 50 * U), Seg(87 * U, 0, 87 * U + f.e, 0)>>,
                                spawns |-> <<Box(0, 0, 100 * U, 80 * U)>>]
Room == {"hallway", "rounding", "avoid", "closed", "oneexit", "fourexits"}

(* --- crowds: groups in order [n, spawn, leader, follower, targets]; spawn 0 is one given place --- *)
None == -1
G(n, s, t) == [n |-> n, spawn |-> s, leader |-> FALSE, follower |-> FALSE, targets |-> t]
Lead(n, s, t) == [n |-> n, spawn |-> s, leader |-> TRUE, follower |-> FALSE, targets |-> t]
Herd(n, s, t) == [n |-> n, spawn |-> s, leader |-> FALSE, follower |-> TRUE, targets |-> t]
Fixed == <<Box(25 * U, 45 * U, 10 * U, 10 * U), Box(80 * U, 65 * U, 10 * U, 10 * U), Box(75 * U, 35 * U, 10 * U, 10 * U), Box(35 * U, 5 * U, 10 * U, 10 * U)>>
Groups(sim, size, leaders) ==
  CASE sim = "Outdoor" -> <<G(size, 1, {None})>>
    [] sim = "Hallway" -> <<G(size \div 2, 1, {1}), G(size \div 2, 2, {0})>>
    [] sim = "RoomWithOneExit" -> <<G(size, 1, {0})>>
    [] sim = "FourExitsRandomPlacing" -> <<G(size, 1, 0..3)>>
    [] sim = "c.Outdoor" -> <<Lead(leaders, 0, {None}), Herd(size, 1, {None})>>
    [] sim = "c.Rounding" -> <<Lead(leaders, 1, {0}), Herd(size, 1, {None})>>
    [] sim = "c.AvoidObstacle" -> <<Lead(leaders, 1, {0}), Herd(size, 2, {None})>>
    [] sim = "c.ClosedRoom" -> <<Lead(leaders, 1, {None}), Herd(size, 1, {None})>>
    [] sim = "c.FourExitsRandomPlacing" -> <<Lead(leaders, 1, 0..3), Herd(size, 1, {None})>>
    [] sim = "c.FourExitsFixedPlacing" -> <<Lead(1, 2, {0}), Lead(1, 3, {1}), Lead(1, 4, {2}), Lead(1, 5, {3}), Herd(size, 1, {None})>>
\* the groups of the members, in order
RECURSIVE Members(_)
Members(gs) == IF gs = <<>> THEN <<>> ELSE [k \in 1..Head(gs).n |-> Head(gs)] \o Members(Tail(gs))
\* walls keep agents clear of them (the placement is told of the obstacles)
Clear(sim) == sim \in {"FourExitsRandomPlacing", "c.Rounding", "c.AvoidObstacle", "c.FourExitsRandomPlacing", "c.FourExitsFixedPlacing"}
Bounded(sim) == sim \notin {"Outdoor", "c.Outdoor", "c.ClosedRoom"}      \* agents outside the domain become inactive
=============================================================================
