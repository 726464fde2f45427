----------------------------- MODULE MCBodyType -----------------------------
EXTENDS BodyType, Json
CONSTANTS Radii, Masses, Ratios, MaxSteps
Names == {"radius", "r_t", "r_s", "r_ts", "mass", "inertia_rot", "target_velocity", "ratio_rt", "ratio_rs", "ratio_ts", "radius_mean",
          "radius_scale", "mass_mean", "mass_scale", "target_velocity_mean", "target_velocity_scale"}
Zero == [n \in Names |-> 0]
Bodies == {[ratio_rt |-> 5000, ratio_rs |-> 2500, ratio_ts |-> 7500, radius_mean |-> 4000, radius_scale |-> 500, mass_mean |-> 8000, mass_scale |-> 800]}
Steps == {[radius |-> r] : r \in Radii} \cup {[mass |-> m] : m \in Masses} \cup {[ratio_rt |-> q] : q \in Ratios}
         \cup {[r_t |-> 1000], [inertia_rot |-> 777], [radius_mean |-> 3000], [radius_scale |-> 300]}
Pairs == {[radius |-> r, mass |-> m, ratio_rs |-> q] : r \in Radii, m \in Masses, q \in Ratios}
Init == st = [a |-> Zero, body |-> "", n |-> 0] /\ act = [op |-> "init"]
Do(kw, o) == LET raw == Assign(st.a, kw) IN
             /\ st.n < MaxSteps
             /\ st' = [st EXCEPT !.a = Canon(st.a, raw), !.n = @ + 1, !.body = IF o = "body" THEN "custom" ELSE @]
             /\ act' = [op |-> o, kw |-> kw]
Next == \/ st.n = 0 /\ \E kw \in Pairs : Do(kw, "new")
        \/ \E kw \in Steps : Do(kw, "set")
        \/ st.body = "" /\ \E kw \in Bodies : Do(kw, "body")
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
\* with a ratio set last or a radius set last, the parts are in proportion
Proportional == [][act'.op = "body" => \A p \in Parts : st'.a[p[1]] = (st'.a[p[2]] * st'.a["radius"]) \div 10000]_<<st, act>>
Complete == [][act'.op = "body" => st'.a["radius"] > 0 /\ st'.a["mass"] > 0 /\ st'.a["inertia_rot"] > 0]_<<st, act>>
CanonPossible == [][\A kw \in {act'.kw} : Possible(st.a, Assign(st.a, kw), st'.a)]_<<st, act>>
GivenKept == [][act'.op = "set" => \A n \in DOMAIN act'.kw : act'.kw[n] # 0 => st'.a[n] = act'.kw[n]]_<<st, act>>
=============================================================================
