------------------------------- MODULE TreeOps -------------------------------
(* Ordered forests: s.par[n] is the parent (0 for a root), s.kids[n] the sequence of children. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Without(seq, x) == SelectSeq(seq, LAMBDA y : y # x)

SetParent(s, c, p) ==
  IF s.par[c] = p THEN s       \* already there: keeps its place among the siblings
  ELSE [s EXCEPT !.par[c] = p,
                 !.kids = [n \in DOMAIN @ |-> IF n = s.par[c] THEN Without(@[n], c)
                                              ELSE IF n = p THEN Append(@[n], c) ELSE @[n]]]

RECURSIVE AncSelf(_, _)
AncSelf(s, n) == IF n = 0 THEN {} ELSE {n} \cup AncSelf(s, s.par[n])
RECURSIVE RootOf(_, _)
RootOf(s, n) == IF s.par[n] = 0 THEN n ELSE RootOf(s, s.par[n])
SubTree(s, n) == {m \in DOMAIN s.par : n \in AncSelf(s, m)}
CanSet(s, c, p) == p = 0 \/ c \notin AncSelf(s, p)

RECURSIVE PreOrder(_, _)
PreOrder(s, n) == <<n>> \o FlattenSeq([i \in DOMAIN s.kids[n] |-> PreOrder(s, s.kids[n][i])])
RECURSIVE PostOrder(_, _)
PostOrder(s, n) == FlattenSeq([i \in DOMAIN s.kids[n] |-> PostOrder(s, s.kids[n][i])]) \o <<n>>
=============================================================================
