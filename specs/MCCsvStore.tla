----------------------------- MODULE MCCsvStore -----------------------------
EXTENDS CsvStore, Json
CONSTANTS NF, NW, MaxSend
Init == st = InitSt(NF, NW) /\ act = [op |-> "init"]
Count(i) == Len(W(i).sent)
Next ==
  \/ \E i \in 1..NW, f \in 1..NF : Count(i) = 0 /\ Open(i, f) /\ act' = [op |-> "open", w |-> i, f |-> f]
  \/ \E i \in 1..NW : LET v == <<ToString(i * 100 + Count(i)), "x">> IN
       Count(i) <= MaxSend /\ Send(i, <<"n", "tag">>, v) /\ act' = [op |-> "send", w |-> i, keys |-> <<"n", "tag">>, vals |-> v]
  \/ \E i \in 1..NW, d \in BOOLEAN : Flag(i, d) /\ act' = [op |-> "flag", w |-> i, dump |-> d]
  \/ \E i \in 1..NW : W(i).alive /\ W(i).started /\ Mutate(i) /\ act' = [op |-> "mutate", w |-> i]
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
=============================================================================
