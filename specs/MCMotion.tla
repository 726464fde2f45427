------------------------------ MODULE MCMotion ------------------------------
(* All short sequences of force-cycle nodes on one agent. *)
EXTENDS Motion, Json
CONSTANTS Vs, Speeds, Steps, MaxSteps, Ops
VARIABLES n, clock
Agent(v, s, three) == [x |-> <<0, 0>>, v |-> <<v, 0>>, f |-> <<0, 0>>, fp |-> <<0, 0>>, phi |-> 0, w |-> 0, t |-> 0, tp |-> 0, phi0 |-> 0,
                       v0 |-> s, e0 |-> <<16, 0>>, m2 |-> 3, i2 |-> 2, ta |-> 1, tr |-> 2, w0 |-> 8, three |-> three]
Init == /\ n = 0 /\ clock = 0 /\ act = [op |-> "init"]
        /\ \E v \in Vs, s \in Speeds, b \in BOOLEAN : st = Agent(v * U, s, b)
Do(o, d) == CASE o = "reset" -> Reset(st) [] o = "adjusting" -> Adjust(st)
              [] o = "orientation" -> IF st.three THEN [st EXCEPT !.phi0 = 0] ELSE st
              [] o \in {"verlet", "integrator"} -> Verlet(st, d) [] o = "euler" -> Euler(st, d) [] o = "begin" -> Begin(st, d)
              [] o = "cycle" -> Reset(Verlet(Adjust(IF st.three THEN [st EXCEPT !.phi0 = 0] ELSE st), d))
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E o \in Ops, d \in Steps :
           /\ o \in {"reset", "adjusting", "orientation"} => d = MaxOf(Steps)
           /\ act' = [op |-> o, d |-> d] /\ st' = Do(o, d)
           /\ clock' = IF o \in {"integrator", "cycle"} THEN clock + d ELSE clock
Spec == Init /\ [][Next]_<<st, act, n, clock>>
View == <<st, n, clock>>
Emit == PrintT("EDGE " \o ToJson([s |-> [g |-> st, n |-> n, c |-> clock], a |-> act', t |-> [g |-> st', n |-> n', c |-> clock']]))
TypeOK == n \in 0..MaxSteps /\ clock >= 0
\* whole cycles drive the agent to its target velocity and never beyond its range
Settled == act.op = "cycle" => st.f = <<0, 0>> /\ (st.three => st.t = 0)
Drive == [][act'.op = "cycle" /\ st.fp = <<0, 0>> /\ act'.d <= 4096 =>
            Abs(st'.v[1] - TargetV(st)[1]) <= Abs(st.v[1] - TargetV(st)[1])]_<<st, act, n, clock>>
Straight == st.v[2] = 0 /\ st.x[2] = 0
=============================================================================
