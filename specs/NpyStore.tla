------------------------------ MODULE NpyStore ------------------------------
(* Design of the chunked array store (crowddynamics/io.py: save_npy, find_npy_files, load_npy,
   load_npy_concatenated). A directory holds the chunks of several stores, one writer per basename. A writer receives
   a frame (a sequence of row ids), then a flag. FALSE keeps the frame in memory; TRUE writes everything
   received since the last TRUE as the next numbered chunk. Frames are values: what the sender does to its array
   afterwards is irrelevant. Files that are not chunks of the basename that is asked for are irrelevant too. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES st, act

Bases == DOMAIN st
NewWriter == [pend |-> <<>>, awaiting |-> FALSE, alive |-> FALSE, chunks |-> <<>>, sent |-> <<>>]

Upd(b, r) == st' = [st EXCEPT ![b] = r]
Open(b) == ~st[b].alive /\ st[b].chunks = <<>>
           /\ Upd(b, [st[b] EXCEPT !.alive = TRUE, !.awaiting = FALSE, !.pend = <<>>, !.sent = <<>>])
Send(b, frame) == st[b].alive /\ ~st[b].awaiting
                  /\ Upd(b, [st[b] EXCEPT !.awaiting = TRUE, !.pend = @ \o frame, !.sent = @ \o frame])
Flag(b, dump) == /\ st[b].alive /\ st[b].awaiting
                 /\ IF dump
                    THEN Upd(b, [st[b] EXCEPT !.awaiting = FALSE, !.pend = <<>>, !.chunks = Append(@, st[b].pend)])
                    ELSE Upd(b, [st[b] EXCEPT !.awaiting = FALSE])
\* the sender overwrites the array it sent before
Mutate(b) == UNCHANGED st
\* the writer goes away (closed, garbage collected, process crashed): whatever was not flushed is lost, no more
Abandon(b) == st[b].alive /\ Upd(b, [st[b] EXCEPT !.alive = FALSE, !.pend = <<>>])
\* a file of somebody else appears in the directory
Foreign(name) == UNCHANGED st

\* what the readers return
Load(b) == st[b].chunks
LoadCat(b) == FlattenSeq(st[b].chunks)
Disk == [b \in Bases |-> st[b].chunks]

----------------------------------------------------------------------------
\* the store never invents, repeats, reorders or skips: what is on disk is a prefix of what was sent
PrefixInv == \A b \in Bases : IsPrefix(LoadCat(b), st[b].sent)
\* nothing is lost while the writer lives
NothingLost == \A b \in Bases : st[b].alive => LoadCat(b) \o st[b].pend = st[b].sent
\* chunks are written once and never changed afterwards
AppendOnlyChunks == [][\A b \in Bases : IsPrefix(st[b].chunks, st'[b].chunks)]_<<st, act>>
NoEmptyChunk == \A b \in Bases : \A i \in DOMAIN st[b].chunks : st[b].chunks[i] # <<>>
=============================================================================
