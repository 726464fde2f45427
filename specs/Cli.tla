-------------------------------- MODULE Cli --------------------------------
(* The command line: simulations found in the modules of a directory, run in the order asked for.
   A module is [name, py, classes]; a class is [name, kind, traits, fails], kind "sim" for simulations; a trait is
   [name, kind, default, min, n]; values are numbers (the driver knows what they stand for).
   A command is [cmd, opts], an option [name, v, junk]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act      \* st: [mods |-> modules of the directory, runs |-> simulations that were run, in order]

SeqRange(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
IsSim(c) == c.kind \in {"sim", "sub"}
\* a file stands once under its name
Write(mods, m) == SelectSeq(mods, LAMBDA x : x.name # m.name) \o <<m>>
Remove(mods, name) == SelectSeq(mods, LAMBDA x : x.name # name)
SimsOf(m) == IF m.py THEN SelectSeq(m.classes, IsSim) ELSE <<>>
Sims(mods) == Flat([i \in DOMAIN mods |-> SimsOf(mods[i])])
Names(mods) == {c.name : c \in SeqRange(Sims(mods))}
Class(mods, name) == LET s == SelectSeq(Sims(mods), LAMBDA c : c.name = name) IN s[1]

GoodValue(t, o) == CASE o.junk -> t.kind = "Unicode"
                     [] t.kind = "Int" -> o.v >= t.min
                     [] t.kind = "Enum" -> o.v \in 1..t.n
                     [] OTHER -> TRUE
\* the last one given counts; a flag turns the default over
Overruled(opts, i) == \E j \in DOMAIN opts : j > i /\ opts[j].name = opts[i].name
GoodOption(c, opts, i) == \E t \in DOMAIN c.traits : c.traits[t].name = opts[i].name /\ (IF Overruled(opts, i) THEN TRUE ELSE GoodValue(c.traits[t], opts[i]))
Value(t, opts) ==
  LET mine == SelectSeq(opts, LAMBDA o : o.name = t.name) IN
  IF mine = <<>> THEN t.default ELSE IF t.kind = "Bool" THEN 1 - t.default ELSE mine[Len(mine)].v
GoodCommand(mods, cmd) == cmd.cmd \in Names(mods) /\ \A i \in DOMAIN cmd.opts : GoodOption(Class(mods, cmd.cmd), cmd.opts, i)
GoodLine(mods, cmds) == cmds # <<>> /\ \A i \in DOMAIN cmds : GoodCommand(mods, cmds[i])
RunOf(mods, cmd) == LET c == Class(mods, cmd.cmd) IN [cls |-> c.name, vals |-> [i \in DOMAIN c.traits |-> Value(c.traits[i], cmd.opts)], fresh |-> TRUE]
Times(x, n) == [i \in 1..n |-> x]
Planned(mods, num, cmds) == Flat([i \in DOMAIN cmds |-> Times(RunOf(mods, cmds[i]), IF num > 0 THEN num ELSE 0)])
\* a simulation that fails is the last one
RECURSIVE UpToFailure(_, _)
UpToFailure(mods, rs) ==
  IF rs = <<>> THEN <<>>
  ELSE IF Class(mods, Head(rs).cls).fails THEN <<Head(rs)>> ELSE <<Head(rs)>> \o UpToFailure(mods, Tail(rs))
Result(mods, num, cmds) == IF GoodLine(mods, cmds) THEN UpToFailure(mods, Planned(mods, num, cmds)) ELSE <<>>
Exit(mods, num, cmds) ==
  IF ~GoodLine(mods, cmds) THEN "usage"
  ELSE IF \E r \in SeqRange(Planned(mods, num, cmds)) : Class(mods, r.cls).fails THEN "failed" ELSE "ok"
=============================================================================
