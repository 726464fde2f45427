------------------------------ MODULE Recorder ------------------------------
(* Recorders of a simulation: each keeps what it has seen since its last flush in memory (pend) and has the rest on disk.
   A record is one pair (agents, data) for one step. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES st, act       \* st: sequence over the recorders of [pend, disk, chunks]

Fresh == [pend |-> <<>>, disk |-> <<>>, chunks |-> 0]
Flush(r) == [pend |-> <<>>, disk |-> r.disk \o r.pend, chunks |-> r.chunks + 1]
Record(r, rec, save) == LET s == [r EXCEPT !.pend = Append(@, rec)] IN IF save THEN Flush(s) ELSE s
Lost(r) == [r EXCEPT !.pend = <<>>]
StepAll(s, rec, saves) == [i \in DOMAIN s |-> Record(s[i], rec, saves[i])]
=============================================================================
