---------------------------- MODULE MCLogicTree ----------------------------
EXTENDS LogicTree, Json
CONSTANTS Names
Init == st = InitSt(Names) /\ act = [op |-> "init"]
N == DOMAIN Names
Next ==
  \/ \E p, c \in N : Add(p, <<c>>) /\ act' = [op |-> "add", p |-> p, cs |-> <<c>>]
  \/ \E p, c, d \in N : c # d /\ Add(p, <<c, d>>) /\ act' = [op |-> "add", p |-> p, cs |-> <<c, d>>]
  \/ \E s, n \in N : InjectBefore(s, n) /\ act' = [op |-> "before", self |-> s, node |-> n]
  \/ \E s, n \in N : InjectAfter(s, n) /\ act' = [op |-> "after", self |-> s, node |-> n]
  \/ \E s \in N, nm \in {Names[n] : n \in N} \cup {"nobody"} : UNCHANGED st /\ act' = [op |-> "lookup", start |-> s, name |-> nm]
  \/ \E s \in N : UNCHANGED st /\ act' = [op |-> "eval", start |-> s]
  \/ \E s \in N : st.par[s] # 0 /\ Detach(s) /\ act' = [op |-> "detach", self |-> s]
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
=============================================================================
