------------------------------ MODULE MCConfig ------------------------------
(* Nested changes of the working directory; all small configurations. *)
EXTENDS Config, Json
CONSTANTS Dirs, Depth, Big
Toks == {[t |-> "int", v |-> 0, text |-> "0"], [t |-> "int", v |-> 3, text |-> "3"], [t |-> "frac", v |-> 2, text |-> "0.5"], [t |-> "word", v |-> 1, text |-> "alpha"]}
Rule(n, k, d) == [name |-> n, kind |-> k, hasmin |-> TRUE, min |-> 0, hasmax |-> TRUE, max |-> 1, n |-> 1, hasdef |-> d, def |-> [t |-> "int", v |-> 1, text |-> "1"]]
Rules == {<<Rule("a", k, d), Rule("b", "float", FALSE)>> : k \in {"integer", "float", "option"}, d \in (IF Big THEN {TRUE, FALSE} ELSE {FALSE})}
Keys == {<<>>} \cup {<<[name |-> "a", tok |-> x]>> : x \in Toks} \cup {<<[name |-> "a", tok |-> x], [name |-> "b", tok |-> y]>> : x \in Toks, y \in Toks} \cup {<<[name |-> "c", tok |-> x], [name |-> "b", tok |-> y]>> : x \in Toks, y \in Toks}
DefOK(rs) == \A i \in DOMAIN rs : rs[i].hasdef => rs[i].kind # "option"
Few == {k \in Keys : Len(k) = 2}
Init == st = [cwd |-> "top", stack |-> <<>>] /\ act = [op |-> "init"]
DoEnter == Len(st.stack) < Depth /\ \E d \in Dirs : st' = Enter(st, d) /\ act' = [op |-> "enter", d |-> d]
DoLeave == st.stack # <<>> /\ \E how \in {"normal", "error"} : st' = Leave(st) /\ act' = [op |-> "leave", how |-> how]
Move == \E d \in Dirs \ {st.cwd} : st' = [st EXCEPT !.cwd = d] /\ act' = [op |-> "chdir", d |-> d]
Load == /\ st.stack = <<>> /\ st.cwd = "top" /\ UNCHANGED st
        /\ \E rs \in {r \in Rules : DefOK(r)}, k1 \in Keys, k2 \in (IF Big THEN Keys ELSE Few) :
             \E ss \in {<<[name |-> "s1", keys |-> k1]>>, <<[name |-> "s1", keys |-> k1], [name |-> "s2", keys |-> k2]>>} :
               act' = [op |-> "load", rules |-> rs, sections |-> ss, good |-> Accepts(rs, ss)]
Next == DoEnter \/ DoLeave \/ Move \/ Load
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
TypeOK == st.cwd \in Dirs \cup {"top"} /\ Len(st.stack) <= Depth
\* leaving everything ends where the first one began (action property)
Back == [][act'.op = "leave" => st'.cwd = st.stack[Len(st.stack)] /\ Len(st'.stack) = Len(st.stack) - 1]_<<st, act>>
\* a configuration is accepted only when each of its sections is, and nothing else
Sectionwise == [][act'.op = "load" => (act'.good = (\A i \in DOMAIN act'.sections : Accepts(act'.rules, <<act'.sections[i]>>)))]_<<st, act>>
=============================================================================
