-------------------------------- MODULE MCRuns --------------------------------
(* The design keeps derived maps in a memory that all simulations share. memo[i]: what the maps kept for simulation i
   were derived from (0: nothing kept); used[i]: what the steps of i were really made with. Hidden: must not show. *)
EXTENDS Runs, Json
CONSTANTS Sims, Scenes, Values, MaxSteps
VARIABLES memo, used
vars == <<st, act, memo, used>>
Nothing == [walls |-> 0, goal |-> 0, tune |-> 0]
Init == act = [op |-> "init"] /\ st = [i \in Sims |-> None] /\ memo = [i \in Sims |-> Nothing] /\ used = [i \in Sims |-> <<>>]
Derived(i) == IF memo[i] = Nothing THEN st[i].now ELSE memo[i]
\* any change forgets what was kept, for all
Forget == memo' = [i \in Sims |-> Nothing]
Make == \E i \in Sims, s \in Scenes : ~st[i].made /\ st' = [st EXCEPT ![i] = Fresh(s)] /\ act' = [op |-> "make", i |-> i, scene |-> s]
          /\ memo' = [memo EXCEPT ![i] = Nothing] /\ used' = [used EXCEPT ![i] = <<>>]
Set == \E i \in Sims, p \in DOMAIN Values : \E v \in Values[p] : st[i].made /\ st[i].now[p] # v
          /\ st' = [st EXCEPT ![i] = WithPart(@, p, v)] /\ act' = [op |-> "set", i |-> i, part |-> p, v |-> v]
          /\ Forget /\ UNCHANGED used
Step == \E i \in Sims : st[i].made /\ Len(st[i].past) < MaxSteps
          /\ st' = [st EXCEPT ![i] = Stepped(@)] /\ act' = [op |-> "step", i |-> i, n |-> 1]
          /\ memo' = [memo EXCEPT ![i] = Derived(i)] /\ used' = [used EXCEPT ![i] = Append(@, Derived(i))]
Copy == \E i, j \in Sims : i # j /\ st[i].made /\ st[j] # st[i]
          /\ st' = [st EXCEPT ![j] = st[i]] /\ act' = [op |-> "copy", i |-> i, j |-> j]
          /\ memo' = [memo EXCEPT ![j] = Nothing] /\ used' = [used EXCEPT ![j] = used[i]]
Ask == \E i \in Sims : st[i].made /\ memo[i] = Nothing
          /\ act' = [op |-> "ask", i |-> i] /\ memo' = [memo EXCEPT ![i] = Derived(i)] /\ UNCHANGED <<st, used>>
Next == Make \/ Set \/ Step \/ Copy \/ Ask
Spec == Init /\ [][Next]_vars
View == <<st, memo, used>>
Pick(s, m) == [i \in Sims |-> [s |-> s[i], asked |-> m[i] # Nothing]]
Emit == PrintT("EDGE " \o ToJson([s |-> Pick(st, memo), a |-> act', t |-> Pick(st', memo')]))
\* the memory never shows: every step was made with what was set
Hidden == \A i \in Sims : used[i] = st[i].past
Kept == \A i \in Sims : memo[i] # Nothing => memo[i] = st[i].now
Apart == [][\A i \in Sims : (act'.op \in {"make", "set", "step", "ask"} /\ i # act'.i) \/ (act'.op = "copy" /\ i # act'.j) => st'[i] = st[i]]_vars
Grows == [][\A i \in Sims : (act'.op = "step" /\ i = act'.i) => Len(st'[i].past) = Len(st[i].past) + 1]_vars
===============================================================================
