------------------------------ MODULE FieldState ------------------------------
(* Fields: which geometries are taken, and that everything derived from a field follows its present geometries.
   Geometries are numbers (0: none); values that are no geometry, not valid or empty are names. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

New == [domain |-> 0, obstacles |-> 0, targets |-> <<>>]
Rejects(name, v) ==
  CASE name = "targets" -> v = <<-1>> \/ \E k \in DOMAIN v : v[k] < 0
    [] OTHER -> v < 0
Assigned(f, name, v) == IF Rejects(name, v) THEN f ELSE [f EXCEPT ![name] = v]

\* an index: number of a target from 0, or CLOSEST for all of them; OTHER is anything else
CLOSEST == -1
OTHERX == -2
Lib == "lib"
\* how a query ends
Outcome(f, what, i) ==
  IF what = "navigation" /\ f.targets = <<>> THEN Lib
  ELSE IF what \in {"navigation", "target"} /\ i = OTHERX THEN "type"
  ELSE IF what \in {"navigation", "target"} /\ i >= Len(f.targets) THEN "index"
  ELSE IF f.domain = 0 THEN Lib
  ELSE "ok"
\* questions that make sense at all
Askable(f, what, i) ==
  CASE what = "mesh" -> TRUE
    [] what = "obstacles" -> f.obstacles # 0
    [] what = "target" -> f.targets # <<>>
    [] OTHER -> TRUE
=============================================================================
