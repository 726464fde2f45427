----------------------------- MODULE MCGroupOps -----------------------------
EXTENDS GroupOps, Json
CONSTANTS Kinds, Sizes, MaxSteps
Init == st = [g |-> Start(Len(Kinds)), n |-> 0] /\ act = [op |-> "init"]
Types == {"circular", "three_circle"}
Kw(s, t, x) == [size |-> s, type |-> t, src |-> x]
Do(o, kw) == /\ st.n < MaxSteps
             /\ st' = [g |-> SetMany(st.g, Kinds, kw), n |-> st.n + 1]
             /\ act' = [op |-> o, kw |-> kw]
Next == \/ st.n = 0 /\ \E s \in Sizes \cup {-1}, t \in Types \cup {"-"}, x \in (1..Len(Kinds)) \cup {-1} : Do("new", Kw(s, t, x))
        \/ \E s \in Sizes \cup {0} : Do("set", Kw(s, "-", -1))
        \/ \E t \in Types : Do("set", Kw(-1, t, -1))
        \/ \E x \in 1..Len(Kinds) : Do("set", Kw(-1, "-", x))
        \/ \E s \in Sizes, x \in 1..Len(Kinds) : Do("hold", Kw(s, "circular", x))
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
\* items of a source are used in order, none twice by generators and callables
UsedOnce == [][\A s \in DOMAIN st.g.used : st'.g.used[s] >= st.g.used[s]
               /\ (st'.g.used[s] > st.g.used[s] => \A i \in DOMAIN st'.g.members : st'.g.members[i].j = st.g.used[s] + i)]_<<st, act>>
SizeRight == Full(st.g) => /\ (Kinds[st.g.src].kind # "collection" => Len(st.g.members) = st.g.size)
                           /\ \A i \in DOMAIN st.g.members : st.g.members[i].t = st.g.type
=============================================================================
