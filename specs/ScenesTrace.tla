----------------------------- MODULE ScenesTrace -----------------------------
EXTENDS Scenes, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED <<st, act>>
Fine == Ev.out = "ok"
Ok == Clause("accepted", Fine)
STEP == 16
\* geometry g as recorded, of scene s
Geometry(g, s) ==
  Clause("domain", Range(g.domain) = Corners(s.domain))
  \cup Clause("exits", Len(g.targets) = Len(s.exits) /\ \A i \in DOMAIN s.exits : Range(g.targets[i]) = Range(s.exits[i]))
  \cup Clause("spawns", Len(g.spawns) >= Len(s.spawns) /\ \A i \in DOMAIN s.spawns : Range(g.spawns[i]) = Corners(s.spawns[i]))
  \cup Clause("walls", SameSet(Range(g.walls), s.walls, STEP))
TScene == IsOp("scene") /\ ReportAll(Ok \cup (IF Fine THEN Geometry(Ev.g, Scene(Ev.f)) \cup Clause("no-other-spawns", Len(Ev.g.spawns) = Len(Scene(Ev.f).spawns)) ELSE {}), IF Fine THEN Scene(Ev.f) ELSE 0)
\* a pillar in the middle of its domain
TPillar == /\ IsOp("pillar")
           /\ LET d == Ev.g.domain  xs == {p[1] : p \in Range(d)}  ys == {p[2] : p \in Range(d)} IN
              ReportAll(Ok \cup (IF Fine THEN Clause("domain-around-the-pillar", Cardinality(Range(d)) = 4 /\ Cardinality(xs) = 2 /\ Cardinality(ys) = 2
                                                   /\ (\A a, b \in xs : a # b => Abs(a - b) = Ev.w) /\ (\A a, b \in ys : a # b => Abs(a - b) = Ev.h)
                                                   /\ (\A a, b \in xs : a < b => a + b = 2 * Ev.c[1]) /\ (\A e, f \in ys : e < f => e + f = 2 * Ev.c[2]))
                                 \cup Clause("pillar-size", Abs(Ev.span - 2 * Ev.rad) <= 1) ELSE {}), 0)

(* crowds: rows in thousandths *)
Milli(b) == [lo |-> <<(b.lo[1] * 125) \div 8, (b.lo[2] * 125) \div 8>>, hi |-> <<(b.hi[1] * 125) \div 8, (b.hi[2] * 125) \div 8>>]
Near(p, b) == b.lo[1] - 2 <= p[1] /\ p[1] <= b.hi[1] + 2 /\ b.lo[2] - 2 <= p[2] /\ p[2] <= b.hi[2] + 2
DiscsMeet(a, b) == LET dx == Abs(a[1] - b[1])  dy == Abs(a[2] - b[2])  r == a[3] + b[3] - 3 IN dx < r /\ dy < r /\ dx * dx + dy * dy < r * r
DiscOnWall(a, s) == LET t == [i \in 1..2 |-> [k \in 1..2 |-> (s[i][k] * 125) \div 8]]
                        gap(k) == Max(0, Max(Min(t[1][k], t[2][k]) - a[k], a[k] - Max(t[1][k], t[2][k])))  r == a[3] - 3 IN
                    gap(1) < r /\ gap(2) < r /\ gap(1) * gap(1) + gap(2) * gap(2) < r * r
SpawnOf(s, sim, k) == IF sim = "c.FourExitsFixedPlacing" /\ k > 1 THEN Fixed[k - 1] ELSE s.spawns[k]
Crowd(rows, s, sim, size, leaders) ==
  LET ms == Members(Groups(sim, size, leaders)) IN
  Clause("as-many-as-asked", Len(rows) = Len(ms))
  \cup (IF Len(rows) # Len(ms) THEN {} ELSE
     Clause("flags", \A i \in DOMAIN ms : rows[i].leader = ms[i].leader /\ rows[i].follower = ms[i].follower)
     \cup Clause("targets", \A i \in DOMAIN ms : rows[i].target \in ms[i].targets)
     \cup Clause("in-their-spawn", \A i \in DOMAIN ms : IF ms[i].spawn = 0 THEN Abs(rows[i].x[1] - Ev.place[1]) <= 1 /\ Abs(rows[i].x[2] - Ev.place[2]) <= 1
                                                        ELSE Near(rows[i].x, Milli(SpawnOf(s, sim, ms[i].spawn))))
     \cup Clause("active", \A i \in DOMAIN ms : rows[i].active)
     \cup Clause("familiar-exits", Ev.f.kind = "fourexits" => \A i \in DOMAIN rows : rows[i].familiar \in 0..3)
     \cup Clause("on-their-way", sim = "Hallway" => \A i \in DOMAIN ms : rows[i].v = (IF 1 \in ms[i].targets THEN <<1000, 0>> ELSE <<-1000, 0>>) /\ rows[i].e = rows[i].v)
     \cup Clause("walking-ahead", sim \in {"Outdoor", "c.Outdoor", "c.ClosedRoom", "RoomWithOneExit"} =>
                    \A i \in DOMAIN rows : Abs(rows[i].v[1] * rows[i].v[1] + rows[i].v[2] * rows[i].v[2] - 1000000) <= 3000 /\ rows[i].e = rows[i].v)
     \cup Clause("standing", sim \in {"FourExitsRandomPlacing", "c.FourExitsRandomPlacing", "c.FourExitsFixedPlacing", "c.Rounding", "c.AvoidObstacle"} => \A i \in DOMAIN rows : rows[i].v = <<0, 0>>))
  \cup Clause("none-overlap", \A i, j \in DOMAIN rows : i < j => \A a \in Range(rows[i].discs), b \in Range(rows[j].discs) : ~DiscsMeet(a, b))
  \cup Clause("clear-of-walls", Clear(sim) => \A i \in DOMAIN rows : \A a \in Range(rows[i].discs), v \in s.walls : ~DiscOnWall(a, v))
  \cup Clause("bodies-as-asked", Ev.typed /\ \A i \in DOMAIN rows : Len(rows[i].discs) = Ev.parts)
TCrowd == /\ IsOp("crowd")
          /\ LET s == Scene(Ev.f) IN
             ReportAll(Ok \cup (IF Fine THEN Geometry(Ev.g, s) \cup Crowd(Ev.rows, s, Ev.sim, Ev.size, Ev.leaders) ELSE {}), IF Fine THEN <<Len(Ev.rows)>> ELSE 0)
\* n updates: rows before and after
TRun == /\ IsOp("run")
        /\ LET a == Ev.before  b == Ev.rows  s == Scene(Ev.f) IN
           ReportAll(Ok \cup (IF Fine THEN
             Clause("nobody-lost", Len(a) = Len(b))
             \cup Clause("counted", Ev.iterations = Ev.n)
             \cup Clause("numbers", Ev.finite)
             \cup (IF Len(a) # Len(b) THEN {} ELSE
                Clause("bodies-keep", \A i \in DOMAIN a : [k \in DOMAIN a[i].discs |-> a[i].discs[k][3]] = [k \in DOMAIN b[i].discs |-> b[i].discs[k][3]] /\ a[i].mass = b[i].mass)
                \cup Clause("flags-keep", \A i \in DOMAIN a : a[i].leader = b[i].leader /\ (a[i].follower = b[i].follower \/ (a[i].follower /\ b[i].target # None)))
                \cup Clause("targets-exist", \A i \in DOMAIN b : b[i].target \in {None} \cup (0..Len(s.exits) - 1))
                \cup Clause("targets-keep", \A i \in DOMAIN b : ~a[i].follower => b[i].target = a[i].target)
                \cup Clause("arrays-follow", Ev.moves)
                \cup Clause("active-inside", \A i \in DOMAIN b : LET d == Milli(s.domain)  x == b[i].x IN
                        IF ~Bounded(Ev.sim) THEN b[i].active
                        ELSE IF d.lo[1] + 2 < x[1] /\ x[1] < d.hi[1] - 2 /\ d.lo[2] + 2 < x[2] /\ x[2] < d.hi[2] - 2 THEN b[i].active
                        ELSE (x[1] < d.lo[1] - 2 \/ x[1] > d.hi[1] + 2 \/ x[2] < d.lo[2] - 2 \/ x[2] > d.hi[2] + 2) => ~b[i].active)) ELSE {}), 0)
\* one agent walks ahead, two meet: way of the first in thousandths after n steps of 1/100 s
TWalk == /\ IsOp("walk")
         /\ ReportAll(Ok \cup (IF Fine THEN Clause("counted", Ev.iterations = Ev.n)
                \cup Clause("walks-ahead", Ev.sim = "TestMovement" => Abs(Ev.way[1] - 10 * Ev.n) <= 1 /\ Abs(Ev.way[2]) <= 1)
                \cup Clause("gets-past", Ev.sim = "TestAgentInteraction" => Ev.way[1] >= 8 * Ev.n /\ Ev.other[1] <= -8 * Ev.n) ELSE {}), 0)
Known == {"scene", "pillar", "crowd", "run", "walk"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ UNCHANGED <<st, act>>
TraceNext == TScene \/ TPillar \/ TCrowd \/ TRun \/ TWalk \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
