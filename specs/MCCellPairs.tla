----------------------------- MODULE MCCellPairs -----------------------------
(* The enumeration of agent pairs by cells (AgentAgentInteractions): points on a line of cells. Each cell is compared with
   itself and with its right neighbour. Every pair within one cell size is visited, and no pair is visited twice. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pos, N, Cell
VARIABLES pos, todo, seen, act
vars == <<pos, todo, seen, act>>
Floor(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
CellOf(i) == Floor(pos[i], Cell)
Cells == {CellOf(i) : i \in DOMAIN pos}
Init == pos = <<>> /\ todo = {} /\ seen = <<>> /\ act = [op |-> "init"]
Place == /\ Len(pos) < N /\ todo = {} /\ seen = <<>>
         /\ \E p \in Pos : pos' = Append(pos, p)
         /\ act' = [op |-> "place"] /\ UNCHANGED <<todo, seen>>
Start == /\ todo = {} /\ seen = <<>> /\ pos # <<>>
         /\ todo' = {<<c, d>> : c \in Cells, d \in Cells} \cap {<<c, e>> : c \in Cells, e \in Cells} 
         /\ act' = [op |-> "crowd", pos |-> pos] /\ UNCHANGED <<pos>>
         /\ seen' = <<<<0, 0>>>>
InCell(c) == {i \in DOMAIN pos : CellOf(i) = c}
PairsOf(c, d) == IF c = d THEN {x \in InCell(c) \X InCell(c) : x[1] < x[2]} ELSE InCell(c) \X InCell(d)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Visit == /\ todo # {} 
         /\ LET b == CHOOSE b \in todo : TRUE IN      \* any order: the sum does not depend on it
            /\ todo' = todo \ {b}
            /\ seen' = IF b[2] \in {b[1], b[1] + 1} THEN seen \o SetSeq(PairsOf(b[1], b[2])) ELSE seen
         /\ act' = [op |-> "visit"] /\ UNCHANGED pos
Next == Place \/ Start \/ Visit
Spec == Init /\ [][Next]_vars
Emit == act'.op # "crowd" \/ PrintT("EDGE " \o ToJson([s |-> 0, a |-> act', t |-> 0]))
Unordered(x) == {x[1], x[2]}
NeverTwice == \A a, b \in DOMAIN seen : a # b => Unordered(seen[a]) # Unordered(seen[b])
Done == seen # <<>> /\ todo = {}
EveryClosePairOnce == Done => \A i, j \in DOMAIN pos : i < j /\ pos[j] - pos[i] \in -Cell..Cell => \E a \in DOMAIN seen : Unordered(seen[a]) = {i, j}
=============================================================================
