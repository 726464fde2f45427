----------------------------- MODULE LogicTree -----------------------------
(* Design of the logic tree (crowddynamics/simulation/base.py: LogicNodeBase) and of one simulation step
   (multiagent.py: MultiAgentSimulation.update). Nodes are 1..N with (not necessarily distinct) names. *)
EXTENDS TreeOps, Integers, TLC

VARIABLES st, act       \* st = [par, kids, name]

InitSt(names) == [par |-> [n \in DOMAIN names |-> 0], kids |-> [n \in DOMAIN names |-> <<>>], name |-> names]
Nodes == DOMAIN st.par

RECURSIVE AddAllTo(_, _, _)
AddAllTo(s, p, cs) == IF cs = <<>> THEN s ELSE AddAllTo(SetParent(s, Head(cs), p), p, Tail(cs))
RECURSIVE CanAddAll(_, _, _)
CanAddAll(s, p, cs) == IF cs = <<>> THEN TRUE ELSE CanSet(s, Head(cs), p) /\ CanAddAll(SetParent(s, Head(cs), p), p, Tail(cs))

\* p << c   or   p << (c1, c2, ...)
Add(p, cs) == CanAddAll(st, p, cs) /\ st' = AddAllTo(st, p, cs)
\* n takes the place of s below the parent of s, and s becomes its (last) child
BeforeEff(s, self, n) == SetParent(SetParent(s, self, n), n, s.par[self])
InjectBefore(self, n) == /\ n \notin SubTree(st, self) /\ self \notin SubTree(st, n)
                         /\ st' = BeforeEff(st, self, n)
\* n becomes the only child of s and takes over the former children of s
AfterEff(s, self, n) == SetParent(AddAllTo(s, n, s.kids[self]), n, self)
InjectAfter(self, n) == /\ n \notin SubTree(st, self) /\ self \notin SubTree(st, n)
                        /\ st' = AfterEff(st, self, n)
Detach(n) == st' = SetParent(st, n, 0)
\* first node of that name in pre-order from the root of whichever node is asked; 0 when there is none
Lookup(s, start, nm) ==
  LET hits == SelectSeq(PreOrder(s, RootOf(s, start)), LAMBDA n : s.name[n] = nm)
  IN IF hits = <<>> THEN 0 ELSE Head(hits)
\* one simulation step evaluates the whole tree of the node that the simulation refers to
Evaluation(s, start) == PostOrder(s, RootOf(s, start))

----------------------------------------------------------------------------
TypeOK == /\ \A n \in Nodes : st.par[n] \in Nodes \cup {0}
          /\ \A n \in Nodes : \A k \in DOMAIN st.kids[n] : st.par[st.kids[n][k]] = n
          /\ \A n \in Nodes : st.par[n] # 0 => Cardinality({k \in DOMAIN st.kids[st.par[n]] : st.kids[st.par[n]][k] = n}) = 1
\* a step evaluates every node of the tree exactly once, and children before their parent, in sibling order
EvalInv == \A r \in Nodes : LET e == Evaluation(st, r)
                                pos(n) == CHOOSE k \in DOMAIN e : e[k] = n IN
  /\ ToSet(e) = SubTree(st, RootOf(st, r)) /\ Len(e) = Cardinality(ToSet(e))
  /\ \A n \in ToSet(e) : st.par[n] # 0 => pos(n) < pos(st.par[n])
  /\ \A n \in ToSet(e) : \A i, j \in DOMAIN st.kids[n] : i < j => pos(st.kids[n][i]) < pos(st.kids[n][j])
LookupInv == \A r, n \in Nodes : n \in SubTree(st, RootOf(st, r)) =>
                LET h == Lookup(st, r, st.name[n]) IN h # 0 /\ st.name[h] = st.name[n]
\* injecting never drops a node: both trees are united
NoLoss == [][act'.op \in {"before", "after"} =>
              (SubTree(st, RootOf(st, act'.self)) \cup SubTree(st, act'.node))
                \subseteq SubTree(st', RootOf(st', act'.self))]_<<st, act>>
\* where the injected node lands
BeforeProp == [][act'.op = "before" => st'.par[act'.self] = act'.node /\ st'.par[act'.node] = st.par[act'.self]
                   /\ SubTree(st', act'.self) = SubTree(st, act'.self)]_<<st, act>>
AfterProp == [][act'.op = "after" => st'.kids[act'.self] = <<act'.node>>
                   /\ ToSet(st'.kids[act'.node]) = ToSet(st.kids[act'.node]) \cup ToSet(st.kids[act'.self])]_<<st, act>>
=============================================================================
