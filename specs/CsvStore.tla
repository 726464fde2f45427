------------------------------ MODULE CsvStore ------------------------------
(* Design of the table store (crowddynamics/io.py: save_csv). Each writer appends to one file: a header with the
   keys of its first record, then one line of values per record, in order. A flag follows each record: FALSE keeps
   the lines in memory, TRUE appends everything in memory to the file. What the file held before is never touched. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES st, act      \* st.files : file -> lines ; st.w : writer -> record

NoWriter == [alive |-> FALSE, file |-> 1, pend |-> <<>>, started |-> FALSE, awaiting |-> FALSE, sent |-> <<>>]
InitSt(nf, nw) == [files |-> [f \in 1..nf |-> <<>>], w |-> [i \in 1..nw |-> NoWriter]]

W(i) == st.w[i]
Upd(i, r) == st' = [st EXCEPT !.w[i] = r]
Open(i, f) == ~W(i).alive /\ Upd(i, [NoWriter EXCEPT !.alive = TRUE, !.file = f])
Lines(i, keys, vals) == IF W(i).started THEN <<vals>> ELSE <<keys, vals>>
Send(i, keys, vals) == /\ W(i).alive /\ ~W(i).awaiting
                       /\ Upd(i, [W(i) EXCEPT !.awaiting = TRUE, !.started = TRUE, !.pend = @ \o Lines(i, keys, vals),
                                              !.sent = @ \o Lines(i, keys, vals)])
Flag(i, dump) == /\ W(i).alive /\ W(i).awaiting
                 /\ IF dump
                    THEN st' = [st EXCEPT !.files[W(i).file] = @ \o W(i).pend,
                                          !.w[i].pend = <<>>, !.w[i].awaiting = FALSE]
                    ELSE st' = [st EXCEPT !.w[i].awaiting = FALSE]
Mutate(i) == UNCHANGED st
Abandon(i) == W(i).alive /\ Upd(i, [W(i) EXCEPT !.alive = FALSE, !.pend = <<>>, !.sent = <<>>])
\* somebody else wrote lines into the file before
Preexisting(f, lines) == st' = [st EXCEPT !.files[f] = @ \o lines]

----------------------------------------------------------------------------
Files == DOMAIN st.files
AppendOnly == [][\A f \in Files : IsPrefix(st.files[f], st'.files[f])]_<<st, act>>
\* every line a living writer was given is in its file or in memory, once, in order
IsSubSeqOf(s, t) ==   \* greedy embedding
  LET RECURSIVE Emb(_, _)
      Emb(i, j) == IF i > Len(s) THEN TRUE ELSE IF j > Len(t) THEN FALSE
                   ELSE IF s[i] = t[j] THEN Emb(i + 1, j + 1) ELSE Emb(i, j + 1)
  IN Emb(1, 1)
Flushed(i) == SubSeq(W(i).sent, 1, Len(W(i).sent) - Len(W(i).pend))
NothingLost == \A i \in DOMAIN st.w : W(i).alive =>
                 /\ IsSuffix(W(i).pend, W(i).sent) /\ IsSubSeqOf(Flushed(i), st.files[W(i).file])
HeaderOnce == \A i \in DOMAIN st.w : W(i).alive /\ W(i).sent # <<>> =>
                 Cardinality({k \in DOMAIN W(i).sent : W(i).sent[k] = W(i).sent[1]}) = 1
=============================================================================
