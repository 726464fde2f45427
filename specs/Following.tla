------------------------------ MODULE Following ------------------------------
(* How followers choose whom or what to follow. Agents are numbered from 0 in array order:
   [x, v (integers), target, leader, familiar, isl, isf]. Directions are in 1/D. *)
EXTENDS Sight

D == 16384
Max(a, b) == IF a > b THEN a ELSE b
MaxAbs(a) == Max(Abs(a[1]), Abs(a[2]))
\* length in 1/256, direction
Len256(a) == LET n == Len2(a) IN IF n <= 32000 THEN Root(n * 65536) ELSE 16 * Root(n * 256)
RECURSIVE UnitV(_)
UnitV(a) == IF a = <<0, 0>> THEN a
            ELSE IF MaxAbs(a) > 500 THEN UnitV(<<a[1] \div 2, a[2] \div 2>>)
            ELSE LET l == Len256(a) IN <<(a[1] * D * 256) \div l, (a[2] * D * 256) \div l>>
\* weighted average (w in 1/100) of two directions, not normalized; normalized
Mix(a, b, w) == <<(w * a[1] + (100 - w) * b[1]) \div 100, (w * a[2] + (100 - w) * b[2]) \div 100>>
Normal(a) == IF MaxAbs(a) <= 1 THEN <<0, 0>> ELSE LET l == Root(Len2(a)) IN <<(a[1] * D) \div l, (a[2] * D) \div l>>

(* a heads towards point p when p lies within 0.45 pi of its velocity: dot > 0.156434 |d| |v| *)
Angle(v, d) == LET l == Root(Len2(d) * Len2(v)) IN [c |-> Dot(v, d) * 6392 - l * 1000, slack |-> 12 * l + 7000]
Towards(a, p) == LET z == Angle(a.v, Sub(p, a.x)) IN z.c > 0
Unclear(a, p) == a.v # <<0, 0>> /\ a.x # p /\ LET z == Angle(a.v, Sub(p, a.x)) IN Abs(z.c) <= z.slack
Moving(a, b) == a.v # <<0, 0>> /\ b.v # <<0, 0>>
\* b moves and does not come towards a
Away(a, b) == Moving(a, b) /\ ~Towards(b, a.x)
Relation(a, b) == <<Away(a, b), Away(b, a)>>

Ids(A) == 0..(Len(A) - 1)
At(A, i) == A[i + 1]
Dist(A, i, j) == Len2(Sub(At(A, i).x, At(A, j).x))
Sees(A, i, j, walls) == Visible(At(A, i).x, At(A, j).x, walls)
Leaders(A) == {j \in Ids(A) : At(A, j).isl}
RECURSIVE Sorted(_, _, _)
Sorted(A, i, S) == IF S = {} THEN <<>> ELSE LET j == CHOOSE x \in S : \A y \in S : Dist(A, i, x) <= Dist(A, i, y) IN <<j>> \o Sorted(A, i, S \ {j})

(* --- one follower i: the nearest leader in range that is seen and heads away is followed and remembered; a remembered leader that comes
       first but is hidden passes its target on; otherwise the remembered leader's target is taken over, if there is one --- *)
LeaderList(A, i, sight) == Sorted(A, i, {j \in Leaders(A) : Dist(A, i, j) <= Sq(sight)})
Stops(A, i, j, walls) == IF Sees(A, i, j, walls) THEN Away(At(A, i), At(A, j)) ELSE At(A, i).leader = j
Choice(A, i, walls, sight) ==     \* [kind : "follow" | "remember" | "lost", j]
  LET L == LeaderList(A, i, sight)  S == {k \in DOMAIN L : Stops(A, i, L[k], walls)}  m == At(A, i).leader
  IN IF S # {} /\ LET j == L[MinOf(S)] IN Sees(A, i, j, walls) THEN [kind |-> "follow", j |-> L[MinOf(S)]]
     ELSE IF m # NONE THEN [kind |-> "remember", j |-> m] ELSE [kind |-> "lost", j |-> NONE]
LeaderDir(a, b) == Normal(Mix(UnitV(Sub(b.x, a.x)), UnitV(b.v), 40))
Decide(A, i, c) == [A EXCEPT ![i + 1] = CASE c.kind = "follow" -> [@ EXCEPT !.leader = c.j, !.target = NONE]
                                           [] c.kind = "remember" -> [@ EXCEPT !.target = At(A, c.j).target]
                                           [] OTHER -> @]
\* all followers, one after the other
RECURSIVE FollowFrom(_, _, _, _)
FollowFrom(A, i, walls, sight) == IF i = Len(A) THEN A
  ELSE FollowFrom(IF At(A, i).isf THEN Decide(A, i, Choice(A, i, walls, sight)) ELSE A, i + 1, walls, sight)
LeaderDirs(A, walls, sight) == [k \in DOMAIN A |-> LET c == Choice(A, k - 1, walls, sight) IN
                                IF A[k].isf /\ c.kind = "follow" THEN LeaderDir(A[k], At(A, c.j)) ELSE <<0, 0>>]
GoFamiliar(A, lost) == [k \in DOMAIN A |-> IF k \in lost THEN [A[k] EXCEPT !.target = A[k].familiar] ELSE A[k]]
Lost(A, walls, sight) == {k \in DOMAIN A : A[k].isf /\ Choice(A, k - 1, walls, sight).kind = "lost"}
FollowLeaders(A, walls, sight) == GoFamiliar(FollowFrom(A, 0, walls, sight), Lost(A, walls, sight))

(* --- herding: the mean direction of the nearest visible neighbours that head away --- *)
SumOf(f, S) == LET T[R \in SUBSET S] == IF R = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in R : TRUE IN Add(f[x], T[R \ {x}]) IN T[S]
InSight(A, i, walls, sight) == {j \in Ids(A) \ {i} : Dist(A, i, j) < Sq(sight) /\ Sees(A, i, j, walls)}
Neighbours(A, i, walls, sight, count) == LET L == Sorted(A, i, InSight(A, i, walls, sight)) IN {L[k] : k \in {x \in DOMAIN L : x <= count}}
Herd(A, i, walls, sight, count) == {j \in Neighbours(A, i, walls, sight, count) : Away(At(A, i), At(A, j))}
HerdDir(A, i, H) == LET n == Cardinality(H)  sx == SumOf([j \in H |-> At(A, j).x], H)  sv == SumOf([j \in H |-> At(A, j).v], H)
                    IN Normal(Mix(UnitV(Sub(sx, <<n * At(A, i).x[1], n * At(A, i).x[2]>>)), UnitV(sv), 15))
\* [agents, dir]: followers with a herd give up their target, then look for leaders within 20 m (far)
FollowHerd(A, walls, sight, far, count) ==
  LET H == [k \in DOMAIN A |-> IF A[k].isf THEN Herd(A, k - 1, walls, sight, count) ELSE {}]
      A1 == [k \in DOMAIN A |-> IF H[k] # {} THEN [A[k] EXCEPT !.target = NONE] ELSE A[k]]
      A2 == GoFamiliar(FollowFrom(A1, 0, walls, far), {k \in Lost(A1, walls, far) : H[k] = {}})
      ld == LeaderDirs(A1, walls, far)
  IN [agents |-> A2, dir |-> [k \in DOMAIN A |-> Normal(Mix(ld[k], IF H[k] = {} THEN <<0, 0>> ELSE HerdDir(A, k - 1, H[k]), 65))]]

\* scenes in which rounding or the order of equal distances decides are not compared
TieFree(A, i, S) == \A j, k \in S : j # k => Dist(A, i, j) # Dist(A, i, k)
ClearScene(A) == \A i \in Ids(A) : At(A, i).isf =>
                    TieFree(A, i, Ids(A) \ {i}) /\ ~At(A, i).isl /\ (\A j \in Ids(A) \ {i} : ~Unclear(At(A, j), At(A, i).x) /\ At(A, j).x # At(A, i).x)
=============================================================================
