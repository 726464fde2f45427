----------------------------- MODULE MCNpyStore -----------------------------
EXTENDS NpyStore, Json
CONSTANTS BaseNames, MaxSent, FrameLens
Init == st = [b \in BaseNames |-> NewWriter] /\ act = [op |-> "init"]
\* rows of a writer are numbered in the order in which they are sent
FrameFor(b, n) == [i \in 1..n |-> Len(st[b].sent) + i]
Next ==
  \/ \E b \in BaseNames : Open(b) /\ act' = [op |-> "open", b |-> b]
  \/ \E b \in BaseNames, n \in FrameLens : Len(st[b].sent) + n <= MaxSent /\ Send(b, FrameFor(b, n))
                                        /\ act' = [op |-> "send", b |-> b, frame |-> FrameFor(b, n)]
  \/ \E b \in BaseNames, d \in BOOLEAN : Flag(b, d) /\ act' = [op |-> "flag", b |-> b, dump |-> d]
  \/ \E b \in BaseNames : st[b].sent # <<>> /\ Mutate(b) /\ act' = [op |-> "mutate", b |-> b]
  \/ \E b \in BaseNames : Abandon(b) /\ act' = [op |-> "abandon", b |-> b]
  \/ \E b \in BaseNames : UNCHANGED st /\ act' = [op |-> "load", b |-> b]
Spec == Init /\ [][Next]_<<st, act>>
View == st
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
=============================================================================
