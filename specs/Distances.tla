------------------------------ MODULE Distances ------------------------------
(* Skin distances, normals and moment arms (crowddynamics/core/distance.py) of discs, bodies of three discs and wall
   segments with integer coordinates. A disc is [o, r], a body is a sequence of discs (the torso first). *)
EXTENDS Planar, FiniteSets, TLC

VARIABLES st, act

Rot90(v) == <<-v[2], v[1]>>
Neg(v) == <<-v[1], -v[2]>>
\* n (in units of 1/10000) is v with length one; nothing for the zero vector
IsUnit(n, v) == IF v = <<0, 0>> THEN n = <<0, 0>>
                ELSE Abs(n[1]) <= 10100 /\ Abs(n[2]) <= 10100 /\ Abs(Cross(v, n)) <= Abs(v[1]) + Abs(v[2]) + 1 /\ Dot(v, n) > 0 /\ Abs(Len2(n) - 100000000) <= 40000
\* distance of centres g in 1/100: the root of D2
IsLen(g, D2) == g >= 0 /\ Abs(g * g - 10000 * D2) <= g + 1

(* --- discs --- *)
Gap(a, b) == Sub(a.o, b.o)
PairOk(h, n, a, b) == IsLen(h + 100 * (a.r + b.r), Len2(Gap(a, b))) /\ IsUnit(n, Gap(a, b))
\* h (in 1/100) is not more than the distance of a and b
NotAbove(h, a, b) == LET g == h + 100 * (a.r + b.r) IN g <= 0 \/ g * g <= 10000 * Len2(Gap(a, b)) + g + 1

(* --- segments p-q, p # q --- *)
Along(x, w) == Dot(Sub(x, w[1]), Sub(w[2], w[1]))
Side(x, w) == Cross(Sub(w[2], w[1]), Sub(x, w[1]))
\* the closest point is the first end, the second end or between
Where(x, w) == IF Along(x, w) <= 0 THEN "first" ELSE IF Along(x, w) >= Len2(Sub(w[2], w[1])) THEN "second" ELSE "between"
Away(x, w) == CASE Where(x, w) = "first" -> Sub(x, w[1]) [] Where(x, w) = "second" -> Sub(x, w[2])
              [] OTHER -> LET u == Rot90(Sub(w[2], w[1])) s == Sgn(Side(x, w)) IN <<s * u[1], s * u[2]>>
\* g in 1/100 is the distance of x from the segment; tolerance of one unit
WallLen(g, x, w) == IF Where(x, w) # "between" THEN IsLen(g, Len2(Away(x, w)))
                    ELSE LET rl == Root(10000 * Len2(Sub(w[2], w[1]))) IN Abs(g * rl - 10000 * Abs(Side(x, w))) <= Abs(g) + rl
\* a centre on the wall has no normal: zero, or either normal of the wall
WallNormal(n, x, w) == IF Away(x, w) # <<0, 0>> THEN IsUnit(n, Away(x, w))
                       ELSE n = <<0, 0>> \/ LET u == Rot90(Sub(w[2], w[1])) IN IsUnit(n, u) \/ IsUnit(n, Neg(u))
WallOk(h, n, a, w) == WallLen(h + 100 * a.r, a.o, w) /\ WallNormal(n, a.o, w)
WallNotAbove(h, a, w) == LET g == h + 100 * a.r IN
                         g <= 0 \/ IF Where(a.o, w) # "between" THEN g * g <= 10000 * Len2(Away(a.o, w)) + g + 1
                                   ELSE LET rl == Root(10000 * Len2(Sub(w[2], w[1]))) IN g * rl <= 10000 * Abs(Side(a.o, w)) + g + rl

(* --- moment arms in 1/100: centre relative to the torso, plus sign times radius along the normal --- *)
Arm(m, body, i, sign, n) == \A k \in 1..2 : Abs(100 * m[k] - (10000 * (body[i].o[k] - body[1].o[k]) + sign * body[i].r * n[k])) <= 100 + body[i].r
=============================================================================
