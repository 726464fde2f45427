------------------------------ MODULE GeoStore ------------------------------
(* Design of the geometry store (crowddynamics/io.py: save_geometry_json, load_geometry_json).
   A file is absent or holds one dictionary: a set of <<name, value>> pairs. A value is nothing, one geometry (also a
   multipart one), a list of geometries or a dictionary of geometries; values are written in a canonical text form. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES st, act

Absent == [there |-> FALSE, m |-> {}]
Content(pairs) == [there |-> TRUE, m |-> ToSet(pairs)]

\* saving replaces the file; it does not depend on what was there before
Save(f, pairs) == st' = [st EXCEPT ![f] = Content(pairs)] /\ act' = [op |-> "save", f |-> f, m |-> pairs]
Load(f) == UNCHANGED st /\ act' = [op |-> "load", f |-> f]
Unlink(f) == st[f].there /\ st' = [st EXCEPT ![f] = Absent] /\ act' = [op |-> "remove", f |-> f]
\* some other content appears under the name (a partial file, say); saving must still work
Junk(f) == st' = [st EXCEPT ![f] = Absent] /\ act' = [op |-> "junk", f |-> f]

----------------------------------------------------------------------------
OneValuePerName == \A f \in DOMAIN st : \A a, b \in st[f].m : a[1] = b[1] => a = b
LastSaveWins == [][act'.op = "save" => st'[act'.f].m = ToSet(act'.m)]_<<st, act>>
OthersUntouched == [][\A f \in DOMAIN st : ("f" \in DOMAIN act' /\ act'.f # f) => st'[f] = st[f]]_<<st, act>>
=============================================================================
