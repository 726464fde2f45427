----------------------------- MODULE Placement -----------------------------
(* Design of placing agents (crowddynamics/simulation/agents.py: Agents.add_non_overlapping_group).
   An agent has an id and a body: a sequence of discs <<dx, dy, r>> around its position. A group is placed in order:
   each member takes positions from the supply until one does not overlap an agent placed before nor
   an obstacle; after 10 rejections per member in total the rest of the group is given up. *)
EXTENDS Planar, FiniteSets, SequencesExt, TLC

VARIABLES st, act       \* st: sequence of rows [id, pos, body]

Disc(row, k) == [c |-> Add(row.pos, <<row.body[k][1], row.body[k][2]>>), r |-> row.body[k][3]]
Overlap(a, b) == \E i \in DOMAIN a.body, j \in DOMAIN b.body :
  LET x == Disc(a, i) y == Disc(b, j) IN DiscsOverlap(x.c, x.r, y.c, y.r)
Blocked(a, walls) == \E i \in DOMAIN a.body, w \in DOMAIN walls :
  LET x == Disc(a, i) IN DiscMeetsSegment(x.c, x.r, walls[w][1], walls[w][2])
Fits(rows, a, walls) == (\A i \in DOMAIN rows : ~Overlap(rows[i], a)) /\ ~Blocked(a, walls)

Row(m, p) == [id |-> m.id, pos |-> p, body |-> m.body]
\* rows after placing members i.. with positions k.. of the (cyclic) supply, after `bad` rejections
RECURSIVE Place(_, _, _, _, _, _, _)
Place(rows, members, i, supply, k, bad, walls) ==
  IF i > Len(members) \/ bad >= 10 * Len(members) THEN [rows |-> rows, used |-> k, bad |-> bad]
  ELSE LET a == Row(members[i], supply[(k % Len(supply)) + 1])
       IN IF Fits(rows, a, walls) THEN Place(Append(rows, a), members, i + 1, supply, k + 1, bad, walls)
                                  ELSE Place(rows, members, i, supply, k + 1, bad + 1, walls)
After(members, supply, walls) == Place(st, members, 1, supply, 0, 0, walls)

AddGroup(members, supply, walls) ==
  st' = After(members, supply, walls).rows /\ act' = [op |-> "add", members |-> members, supply |-> supply, walls |-> walls]
\* a group of another agent type is refused as a whole
Mismatch == UNCHANGED st /\ act' = [op |-> "mismatch"]

----------------------------------------------------------------------------
Disjoint == \A i, j \in DOMAIN st : i # j => ~Overlap(st[i], st[j])
RowsKept == [][IsPrefix(st, st')]_<<st, act>>
ClearOfWalls == [][act'.op = "add" => \A i \in (Len(st) + 1)..Len(st') : ~Blocked(st'[i], act'.walls)]_<<st, act>>
InGroupOrder == [][act'.op = "add" => \A i \in (Len(st) + 1)..Len(st') : st'[i].id = act'.members[i - Len(st)].id]_<<st, act>>
\* a group is only given up after ten rejections per member
GivesUpLate == [][act'.op = "add" => LET a == After(act'.members, act'.supply, act'.walls)
                    IN Len(st') < Len(st) + Len(act'.members) => a.bad >= 10 * Len(act'.members)]_<<st, act>>
=============================================================================
