----------------------------- MODULE MCRecorder -----------------------------
(* One or two recorders, the second opened at any time; histories of at most Steps steps. *)
EXTENDS Recorder, Json
CONSTANTS Steps, R
VARIABLES hist, from
vars == <<st, act, hist, from>>
Init == st = <<>> /\ act = [op |-> "init"] /\ hist = <<>> /\ from = <<>>
Open == Len(st) < R /\ st' = Append(st, Fresh) /\ from' = Append(from, Len(hist)) /\ act' = [op |-> "open"] /\ UNCHANGED hist
Step == /\ Len(hist) < Steps /\ hist' = Append(hist, Len(hist)) /\ UNCHANGED from
        /\ \E sv \in [DOMAIN st -> BOOLEAN] : st' = StepAll(st, Len(hist), sv) /\ act' = [op |-> "step", saves |-> sv]
Next == Open \/ Step
Spec == Init /\ [][Next]_vars
Emit == PrintT("EDGE " \o ToJson([s |-> [st |-> st, hist |-> hist, from |-> from], a |-> act', t |-> [st |-> st', hist |-> hist', from |-> from']]))
View == <<st, hist, from>>
TypeOK == Len(st) <= R
\* nothing lost, invented or out of order
Complete == \A i \in DOMAIN st : st[i].disk \o st[i].pend = SubSeq(hist, from[i] + 1, Len(hist))
\* files only grow, at most by one chunk in a step
Grow == [][\A i \in DOMAIN st : SubSeq(st'[i].disk, 1, Len(st[i].disk)) = st[i].disk /\ st'[i].chunks \in {st[i].chunks, st[i].chunks + 1}]_vars
=============================================================================
