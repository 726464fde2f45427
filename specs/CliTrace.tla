------------------------------ MODULE CliTrace ------------------------------
EXTENDS Cli, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [mods |-> <<>>, chunks |-> <<>>]
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED act
Keep == UNCHANGED <<st>>
TWrite == IsOp("write") /\ st' = [st EXCEPT !.mods = Write(@, Ev.m)]
TRemove == IsOp("remove") /\ st' = [st EXCEPT !.mods = Remove(@, Ev.name)]
TRun == /\ IsOp("run") /\ Keep
        /\ LET want == Result(st.mods, Ev.num, Ev.cmds)  out == Exit(st.mods, Ev.num, Ev.cmds) IN
           ReportAll(Clause("line-accepted-or-refused", Ev.out = out)
                     \cup Clause("nothing-runs-when-refused", out = "usage" => Ev.runs = <<>>)
                     \cup Clause("runs-what-was-asked", out # "usage" => Ev.runs = want)
                     \cup Clause("log-level", out # "usage" => \A i \in DOMAIN Ev.levels : Ev.levels[i] = Ev.level), [out |-> out, runs |-> want])
TList == /\ IsOp("list") /\ Keep
         /\ LET want == Names(st.mods) IN ReportAll(Clause("lists-simulations", Ev.out = "ok" /\ SeqRange(Ev.names) = want), want)
\* from any directory; names in the order of the module
TImport == /\ IsOp("import") /\ Keep
           /\ LET want == Names(st.mods) IN ReportAll(Clause("imports-from-directory", Ev.out = "ok" /\ SeqRange(Ev.names) = want /\ Len(Ev.names) = Cardinality(want) /\ Ev.fresh), want)
TModule == /\ IsOp("module") /\ Keep
           /\ LET want == Flat([i \in DOMAIN st.mods |-> IF st.mods[i].name = Ev.name THEN [j \in DOMAIN SimsOf(st.mods[i]) |-> SimsOf(st.mods[i])[j].name] ELSE <<>>]) IN
              ReportAll(Clause("subclasses-in-order", Ev.out = "ok" /\ Ev.names = want), want)
THelp == /\ IsOp("help") /\ Keep
         /\ LET want == IF Ev.cmd = "" THEN Names(st.mods) ELSE {Class(st.mods, Ev.cmd).traits[i].name : i \in DOMAIN Class(st.mods, Ev.cmd).traits} IN
            ReportAll(Clause("help", Ev.out = "ok" /\ SeqRange(Ev.names) = want), want)
TChunk == IsOp("chunk") /\ st' = [st EXCEPT !.chunks = Append(@, Ev.rows)]
TConcat == /\ IsOp("concat") /\ Keep
           /\ LET want == Flat(st.chunks) IN ReportAll(Clause("concatenated", Ev.out = "ok" /\ Ev.rows = want), want)
Known == {"write", "remove", "run", "list", "import", "module", "help", "chunk", "concat"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep /\ UNCHANGED act
TraceNext == TWrite \/ TRemove \/ TRun \/ TList \/ TImport \/ TModule \/ THelp \/ TChunk \/ TConcat \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
