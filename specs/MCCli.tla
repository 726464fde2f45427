------------------------------- MODULE MCCli -------------------------------
(* One or two modules, lines of at most two commands with at most one option each. *)
EXTENDS Cli, Json
CONSTANTS Nums
T == [name |-> "size", kind |-> "Int", default |-> 3, min |-> 1, n |-> 0]
A == [name |-> "Aa", kind |-> "sim", traits |-> <<T>>, fails |-> FALSE]
B == [name |-> "Bb", kind |-> "sim", traits |-> <<>>, fails |-> FALSE]
F == [name |-> "Ff", kind |-> "sub", traits |-> <<T>>, fails |-> TRUE]
O == [name |-> "Oo", kind |-> "plain", traits |-> <<>>, fails |-> FALSE]
Files == {[name |-> "m1", py |-> TRUE, classes |-> <<A, B>>], [name |-> "m1", py |-> TRUE, classes |-> <<B, O>>], [name |-> "m2", py |-> TRUE, classes |-> <<F>>], [name |-> "m3", py |-> FALSE, classes |-> <<A>>]}
Opts == {<<>>} \cup {<<[name |-> "size", v |-> x, junk |-> FALSE]>> : x \in {0, 5}}
Cmds == {[cmd |-> c, opts |-> o] : c \in {"Aa", "Bb", "Ff", "Oo"}, o \in Opts}
Lines == {<<>>} \cup {<<a>> : a \in Cmds} \cup {<<a, b>> : a \in Cmds, b \in Cmds}
Init == st = [mods |-> <<>>, runs |-> <<>>] /\ act = [op |-> "init"]
Put == /\ Len(st.mods) < 3
       /\ \E m \in Files : /\ (Len(st.mods) > 0 => m.name # st.mods[Len(st.mods)].name \/ m.classes # st.mods[Len(st.mods)].classes)
                           /\ st' = [mods |-> Write(st.mods, m), runs |-> <<>>] /\ act' = [op |-> "write", m |-> m]
Run == \E n \in Nums, ln \in Lines : /\ st.runs = <<>>
                                     /\ act' = [op |-> "run", num |-> n, cmds |-> ln, out |-> Exit(st.mods, n, ln)]
                                     /\ st' = [st EXCEPT !.runs = Result(st.mods, n, ln)]
Next == Put \/ Run
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
TypeOK == \A i, j \in DOMAIN st.mods : st.mods[i].name = st.mods[j].name => i = j
\* only simulations of the present modules run; none after one that fails; options are within bounds
OnlySims == \A r \in SeqRange(st.runs) : r.cls \in Names(st.mods) \ {"Oo"}
FailsLast == \A i \in DOMAIN st.runs : Class(st.mods, st.runs[i].cls).fails => i = Len(st.runs)
InBounds == \A r \in SeqRange(st.runs) : \A i \in DOMAIN r.vals : r.vals[i] >= 1
\* all or nothing (action property): a line with a mistake runs nothing, a good one everything it names
AllOrNothing == [][act'.op = "run" => CASE act'.out = "usage" -> st'.runs = <<>>
                                        [] act'.out = "ok" -> Len(st'.runs) = (IF act'.num > 0 THEN act'.num ELSE 0) * Len(act'.cmds)
                                        [] OTHER -> st'.runs # <<>>]_<<st, act>>
=============================================================================
