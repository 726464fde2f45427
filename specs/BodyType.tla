------------------------------ MODULE BodyType ------------------------------
(* Design of agent attributes (crowddynamics/simulation/agents.py: BodyType, AgentType).
   st.a maps attribute names to integers (units of 1e-4; masses 1e-2). Body measures depend on each other:
   - a radius, mass or target velocity that is still 0 is drawn from mean +- scale once both are positive,
   - torso, shoulder and their distance are ratios of the radius,
   - the rotational inertia is computed from mass and radius when both are known and it was not given. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol

Parts == {<<"r_t", "ratio_rt">>, <<"r_s", "ratio_rs">>, <<"r_ts", "ratio_ts">>}
Drawn == {<<"radius", "radius_mean", "radius_scale">>, <<"mass", "mass_mean", "mass_scale">>,
          <<"target_velocity", "target_velocity_mean", "target_velocity_scale">>}
Derived == {"radius", "mass", "target_velocity", "r_t", "r_s", "r_ts", "inertia_rot"}

Assign(a, kw) == [n \in DOMAIN a |-> IF n \in DOMAIN kw THEN kw[n] ELSE a[n]]
Changed(a, b) == {n \in DOMAIN a : a[n] # b[n]}

\* is x drawn when attributes go from a to raw?
Draws(a, raw, d) == raw[d[1]] = 0 /\ raw[d[2]] > 0 /\ raw[d[3]] > 0 /\ {d[2], d[3]} \cap Changed(a, raw) # {}
\* 4 pi (m / 80) (r / 0.27)^2 in 1e-4, from mass in 1e-2 and radius in 1e-4
Inertia(m, r) == (((((r * r) \div 1000) * m) \div 10000) * 2155) \div 100
InertiaOk(i, m, r) == Near(i, Inertia(m, r), 30 + i \div 50)

\* new is a possible outcome of assigning raw in state a
RadiusNew(a, raw, new) == "radius" \in Changed(a, raw) \/ Draws(a, raw, <<"radius", "radius_mean", "radius_scale">>)
DrawnOk(a, raw, new, d) == IF Draws(a, raw, d) THEN Near(new[d[1]], raw[d[2]], raw[d[3]] + 1) ELSE new[d[1]] = raw[d[1]]
PartOk(a, raw, new, p) ==
  IF (RadiusNew(a, raw, new) /\ raw[p[2]] > 0) \/ (p[2] \in Changed(a, raw) /\ new["radius"] > 0)
  THEN Near(new[p[1]], (raw[p[2]] * new["radius"]) \div 10000, 1)
  ELSE new[p[1]] = raw[p[1]]
InertiaRule(a, raw, new) ==
  IF raw["inertia_rot"] = 0 /\ new["mass"] > 0 /\ new["radius"] > 0 /\ (new["mass"] # a["mass"] \/ new["radius"] # a["radius"])
  THEN InertiaOk(new["inertia_rot"], new["mass"], new["radius"])
  ELSE new["inertia_rot"] = raw["inertia_rot"]
OthersOk(raw, new) == \A n \in DOMAIN raw \ Derived : new[n] = raw[n]
Possible(a, raw, new) == /\ \A d \in Drawn : DrawnOk(a, raw, new, d)
                         /\ \A p \in Parts : PartOk(a, raw, new, p)
                         /\ InertiaRule(a, raw, new) /\ OthersOk(raw, new)

\* one representative outcome, for model checking: draws give the mean
Canon(a, raw) ==
  LET d(x) == IF Draws(a, raw, x) THEN raw[x[2]] ELSE raw[x[1]]
      r == d(<<"radius", "radius_mean", "radius_scale">>)   m == d(<<"mass", "mass_mean", "mass_scale">>)
      one == [n \in DOMAIN raw |-> IF n = "radius" THEN r ELSE IF n = "mass" THEN m
               ELSE IF n = "target_velocity" THEN d(<<"target_velocity", "target_velocity_mean", "target_velocity_scale">>)
               ELSE raw[n]]
      part(p) == IF (RadiusNew(a, raw, one) /\ raw[p[2]] > 0) \/ (p[2] \in Changed(a, raw) /\ r > 0) THEN (raw[p[2]] * r) \div 10000 ELSE raw[p[1]]
  IN [n \in DOMAIN raw |->
       IF n = "r_t" THEN part(<<"r_t", "ratio_rt">>) ELSE IF n = "r_s" THEN part(<<"r_s", "ratio_rs">>)
       ELSE IF n = "r_ts" THEN part(<<"r_ts", "ratio_ts">>)
       ELSE IF n = "inertia_rot" /\ raw[n] = 0 /\ m > 0 /\ r > 0 /\ (m # a["mass"] \/ r # a["radius"]) THEN Inertia(m, r) ELSE one[n]]
=============================================================================
