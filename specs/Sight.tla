-------------------------------- MODULE Sight --------------------------------
(* Line of sight and exit detection on integer coordinates. Walls are pairs of points. Exits are numbered from 0. *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

NONE == -1
Visible(p, q, walls) == ~Hidden(p, q, walls)
\* exits in line of sight, nearer than the range
Candidates(p, doors, walls, range) == {c \in DOMAIN doors : Visible(p, doors[c], walls) /\ Len2(Sub(doors[c], p)) < Sq(range)}
Nearest(p, doors, S) == {c \in S : \A d \in S : Len2(Sub(doors[c], p)) <= Len2(Sub(doors[d], p))}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the exits that may be chosen: the first of the nearest ones; where rounding decides a tie, any of them
Choices(p, doors, walls, range) ==
  LET S == Candidates(p, doors, walls, range)  N == Nearest(p, doors, S) IN
  IF S = {} THEN {NONE}
  ELSE LET c == MinOf(N) IN IF Sq(Root(Len2(Sub(doors[c], p)))) = Len2(Sub(doors[c], p)) THEN {c - 1} ELSE {d - 1 : d \in N}
Detected(p, doors, walls, range) == MinOf(Choices(p, doors, walls, range))

\* agents: [x, target, follower]; what detection leaves
AfterDetection(a, c) == IF a.follower /\ c # NONE THEN [a EXCEPT !.target = c, !.follower = FALSE] ELSE a

\* number of positions closer to a point
Ranks(c, ps, r) ==
  /\ Len(r) = Len(ps) /\ {r[i] : i \in DOMAIN r} = 0..(Len(ps) - 1)
  /\ \A i, j \in DOMAIN ps : Len2(Sub(ps[i], c)) < Len2(Sub(ps[j], c)) => r[i] < r[j]
Capacity(door, agent, layer, coeff) ==
  IF door < agent THEN 0 ELSE IF layer < 0 THEN coeff * (door \div agent) ELSE coeff * ((door - (agent - layer)) \div layer)
=============================================================================
