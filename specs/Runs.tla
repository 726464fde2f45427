--------------------------------- MODULE Runs ---------------------------------
(* Several simulations side by side. What a simulation becomes is determined by where it started and by what was set
   at each of its steps - by nothing else: not by what was asked meanwhile, not by settings that were undone before a
   step, not by other simulations, not by whether it is the original, a copy of its present or one read back from
   files, and not by the order in which agents are listed or by the place of the scene in the plane. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act

Parts == {"walls", "goal", "tune"}
First == [walls |-> 1, goal |-> 1, tune |-> 1]
None == [made |-> FALSE, scene |-> 0, now |-> First, past |-> <<>>]
Fresh(s) == [made |-> TRUE, scene |-> s, now |-> First, past |-> <<>>]
WithPart(m, part, v) == [m EXCEPT !.now[part] = v]
Stepped(m) == [m EXCEPT !.past = Append(@, m.now)]
RECURSIVE SteppedN(_, _)
SteppedN(m, n) == IF n = 0 THEN m ELSE SteppedN(Stepped(m), n - 1)
\* all that the present may depend on
Key(m) == <<m.scene, m.past>>

Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Abs(a - b) <= tol
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Close(a[k], b[k], tol)

\* a view of a simulation: slot k holds agent perm[k] of the scene, and the scene is moved by shift
Home(n) == [perm |-> [k \in 1..n |-> k], shift |-> <<0, 0>>]
Turned(view, perm, shift) == [perm |-> [k \in DOMAIN perm |-> view.perm[perm[k]]], shift |-> <<view.shift[1] + shift[1], view.shift[2] + shift[2]>>]
Slot(view, a) == CHOOSE k \in DOMAIN view.perm : view.perm[k] = a
\* rows as they would be in the scene itself
Normal(rows, view, unit) ==
  [a \in DOMAIN rows |-> LET r == rows[Slot(view, a)] IN
     [r EXCEPT !.x = <<@[1] - unit * view.shift[1], @[2] - unit * view.shift[2]>>,
               !.leader = IF @ \in 0..(Len(rows) - 1) THEN view.perm[@ + 1] - 1 ELSE @]]
SameAgent(a, b, tol) ==
  /\ CloseSeq(a.x, b.x, tol) /\ CloseSeq(a.v, b.v, tol) /\ CloseSeq(a.e, b.e, tol) /\ CloseSeq(a.o, b.o, tol) /\ Close(a.w, b.w, 10 * tol)
  /\ CloseSeq(a.p, b.p, tol) /\ CloseSeq(a.a, b.a, tol)
  /\ a.target = b.target /\ a.leader = b.leader /\ a.flags = b.flags
Same(a, b, tol) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : SameAgent(a[k], b[k], tol)
===============================================================================
