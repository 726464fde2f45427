----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = [cwd |-> "top", stack |-> <<>>]
IsOp(o) == More /\ Ev.op = o /\ KitNext /\ UNCHANGED act
Keep == UNCHANGED <<st>>
At(want) == Clause("working-directory", Ev.cwd = want)
TEnter == /\ IsOp("enter")
          /\ LET there == Ev.d # "missing" IN
             /\ st' = IF there THEN Enter(st, Ev.d) ELSE st
             /\ ReportAll(Clause("entered", (Ev.out = "ok") = there) \cup At(IF there THEN Ev.d ELSE st.cwd), st)
TLeave == /\ IsOp("leave") /\ st' = Leave(st)
          /\ ReportAll(At(Leave(st).cwd) \cup Clause("errors-go-on", Ev.swallowed = FALSE /\ Ev.out = "ok"), st)
TChdir == IsOp("chdir") /\ st' = [st EXCEPT !.cwd = Ev.d]
TLoad == /\ IsOp("load") /\ Keep
         /\ LET good == Accepts(Ev.rules, Ev.sections) IN
            ReportAll(Clause("accepted-iff-every-value-is-valid", Ev.out = IF good THEN "ok" ELSE "raise:ValidationError")
                      \cup Clause("values-converted", good /\ Ev.out = "ok" =>
                             /\ {x.name : x \in SeqRange(Ev.res)} = {x.name : x \in SeqRange(Ev.sections)}
                             /\ \A i \in DOMAIN Ev.sections : \E x \in SeqRange(Ev.res) : x.name = Ev.sections[i].name /\ SeqRange(x.keys) = Loaded(Ev.rules, Ev.sections[i])), good)
\* without specification everything is text
TPlain == /\ IsOp("plain") /\ Keep
          /\ ReportAll(Clause("plain-values", Ev.out = "ok" /\ \A i \in DOMAIN Ev.sections : \E x \in SeqRange(Ev.res) : x.name = Ev.sections[i].name /\ SeqRange(x.keys) = Loaded(<<>>, Ev.sections[i])), <<>>)
TSignature == /\ IsOp("signature") /\ Keep
              /\ LET want == Signature(Ev.args) IN ReportAll(Clause("arguments", Ev.out = want.out /\ Ev.items = want.items), want)
TCallables == /\ IsOp("callables") /\ Keep
              /\ LET want == Callables(Ev.sections, Ev.modules) IN
                 ReportAll(Clause("functions-of-configuration", LET n == IF Ev.take < Len(want.items) THEN Ev.take ELSE Len(want.items) IN
                              /\ [i \in DOMAIN Ev.items |-> SubSeq(Ev.items[i], 1, 2)] = SubSeq(want.items, 1, n)
                              /\ Ev.out = IF Ev.take <= Len(want.items) THEN "ok" ELSE want.out)
                           \cup Clause("working-directory", SeqRange(Ev.cwds) \subseteq {st.cwd}), want)
TDeprecated == /\ IsOp("deprecated") /\ Keep
               /\ ReportAll(Clause("deprecated-still-works", Ev.out = "ok" /\ Ev.res = Ev.a + 2 * Ev.b /\ Ev.warned = 1 /\ Ev.kept), Ev.a + 2 * Ev.b)
\* parts of a text: ["text", i] or ["sub", i]
TDoc == /\ IsOp("doc") /\ Keep
        /\ ReportAll(Clause("docstring-filled-in", Ev.out = "ok" /\ Ev.res = [i \in DOMAIN Ev.parts |-> IF Ev.parts[i].sub THEN Ev.subs[Ev.parts[i].i] ELSE "t" \o ToString(Ev.parts[i].i)] /\ Ev.same /\ Ev.baseKept), Ev.parts)
Known == {"enter", "leave", "chdir", "load", "plain", "signature", "callables", "deprecated", "doc"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep /\ UNCHANGED act
TraceNext == TEnter \/ TLeave \/ TChdir \/ TLoad \/ TPlain \/ TSignature \/ TCallables \/ TDeprecated \/ TDoc \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
