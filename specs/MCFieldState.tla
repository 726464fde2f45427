----------------------------- MODULE MCFieldState -----------------------------
EXTENDS FieldState, Json
CONSTANTS Fields, Domains, Obstacles, Targets, Queries
\* asked: what has been asked from a field already, so that every change is also made after every question
Init == act = [op |-> "init"] /\ st = [f \in Fields |-> [g |-> New, asked |-> "none", sets |-> 0]]
Set == \E f \in Fields, n \in {"domain", "obstacles", "targets"} : \E v \in (IF n = "domain" THEN Domains ELSE IF n = "obstacles" THEN Obstacles ELSE Targets) :
         /\ st[f].sets < 4
         /\ st' = [st EXCEPT ![f].g = Assigned(@, n, v), ![f].sets = @ + 1]
         /\ act' = [op |-> "set", f |-> f, name |-> n, v |-> v]
Ask == \E f \in Fields, qy \in Queries :
         /\ Askable(st[f].g, qy[1], qy[2])
         /\ st' = [st EXCEPT ![f].asked = IF Outcome(st[f].g, qy[1], qy[2]) = "ok" THEN qy[1] ELSE @]
         /\ act' = [op |-> "ask", f |-> f, what |-> qy[1], i |-> qy[2]]
Next == Set \/ Ask
Spec == Init /\ [][Next]_<<st, act>>
Pick(v) == [f \in DOMAIN v |-> [g |-> v[f].g, asked |-> v[f].asked]]
View == Pick(st)
Emit == PrintT("EDGE " \o ToJson([s |-> Pick(st), a |-> act', t |-> Pick(st')]))
TypeOK == \A f \in Fields : st[f].g.domain >= 0 /\ st[f].g.obstacles >= 0 /\ \A k \in DOMAIN st[f].g.targets : st[f].g.targets[k] > 0
\* fields share nothing, and questions change nothing
Apart == [][\A f \in Fields : (act'.op = "ask" \/ act'.f # f) => st'[f].g = st[f].g]_<<st, act>>
Taken == [][act'.op = "set" => LET v == st'[act'.f].g[act'.name] IN v = act'.v \/ v = st[act'.f].g[act'.name]]_<<st, act>>
=============================================================================
