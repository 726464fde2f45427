------------------------------ MODULE GroupOps ------------------------------
(* Design of AgentGroup (crowddynamics/simulation/agents.py).
   A group is complete once size > 0, an agent type and attributes are given - in whatever order, one by one or together.
   Whenever one of them changes and the group is complete, its members are built anew from the attributes:
     collection  one member per element, in order
     generator   `size` members from the next `size` items, in order (each item is used once)
     callable    `size` members from `size` calls, in order
   Sources are numbered; st.used[s] counts the items taken from source s, item j of source s is <<s, j>>. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

NoSrc == 0
Start(n) == [size |-> 0, type |-> "", src |-> NoSrc, used |-> [s \in 1..n |-> 0], members |-> <<>>]
Full(g) == g.size > 0 /\ g.type # "" /\ g.src # NoSrc
Item(s, j) == [s |-> s, j |-> j]
\* kinds: sequence of [kind, len]; members are built when complete
Build(g, kinds) ==
  IF ~Full(g) THEN g
  ELSE LET src == kinds[g.src] IN
       IF src.kind = "collection"
       THEN [g EXCEPT !.members = [j \in 1..src.len |-> [t |-> g.type, s |-> g.src, j |-> j]]]
       ELSE [g EXCEPT !.members = [j \in 1..g.size |-> [t |-> g.type, s |-> g.src, j |-> g.used[g.src] + j]],
                      !.used[g.src] = @ + g.size]
\* kw: [size, type, src], a field of -1 / "-" is not assigned
Put(g, kw) == [g EXCEPT !.size = IF kw.size = -1 THEN @ ELSE kw.size, !.type = IF kw.type = "-" THEN @ ELSE kw.type,
                        !.src = IF kw.src = -1 THEN @ ELSE kw.src]
SetMany(g, kinds, kw) == LET h == Put(g, kw) IN IF h = g THEN g ELSE Build(h, kinds)
=============================================================================
