----------------------------- MODULE TraitsTrace -----------------------------
EXTENDS Traits, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = <<>>
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok")
Keep == UNCHANGED <<st, act>>
TDefine == /\ IsOp("define") /\ UNCHANGED act
           /\ LET can == CanDefine(st, Ev.bases) IN
              /\ st' = IF can THEN Append(st, [bases |-> Ev.bases, own |-> Ev.own]) ELSE st
              /\ ReportAll(Clause("class-made", (Ev.out = "ok") = can), can)
TTraits == /\ IsOp("traits") /\ Keep
           /\ LET want == Traits(st, Ev.c, SeqRange(Ev.noNames), SeqRange(Ev.noClasses)) IN
              ReportAll(Ok \cup Clause("each-name-once-most-derived-first", Ev.out = "ok" => Ev.ts = want), want)
TOwn == /\ IsOp("own") /\ Keep
        /\ LET want == OwnTraits(st, Ev.c, SeqRange(Ev.noNames)) IN
           ReportAll(Ok \cup Clause("own-traits-in-order", Ev.out = "ok" => Ev.ts = want), want)
TStruct == /\ IsOp("struct") /\ Keep
           /\ LET ts == Traits(st, Ev.c, SeqRange(Ev.noNames), SeqRange(Ev.noClasses))
                  can == \A i \in DOMAIN ts : KindOf(st, ts[i]) \in Plain \cup {"Array"}
                  Field(t) == LET k == KindOf(st, t) IN [name |-> t.name, type |-> IF k = "Array" THEN "float64" ELSE Dtype(k), shape |-> IF k = "Array" THEN <<2>> ELSE <<>>]
              IN ReportAll(Clause("struct-possible", (Ev.out = "ok") = can)
                           \cup Clause("struct-fields", can /\ Ev.out = "ok" => Ev.fields = [i \in DOMAIN ts |-> Field(ts[i])]), ts)
TTable == /\ IsOp("table") /\ Keep
          /\ LET ts == Traits(st, Ev.c, {}, {}) IN
             ReportAll(Ok \cup Clause("one-row-for-each-trait", Ev.out = "ok" => [i \in DOMAIN Ev.rows |-> SubSeq(Ev.rows[i], 1, 2)] = [i \in DOMAIN ts |-> <<ts[i].name, ts[i].from>>])
                       \cup Clause("defaults-in-the-table", Ev.out = "ok" /\ Len(Ev.rows) = Len(ts) => \A i \in DOMAIN ts : KindOf(st, ts[i]) \in {"other", "Enum"} \/ Ev.rows[i][3] = DefText(KindOf(st, ts[i]))), ts)
\* conversions of one trait
TDtype == /\ IsOp("dtype") /\ Keep
          /\ ReportAll(Clause("dtype", CASE Ev.kind \in Plain -> Ev.out = "ok" /\ Ev.name = "x" /\ Ev.type = Dtype(Ev.kind) /\ Ev.shape = <<>>
                                         [] Ev.kind = "Array" -> Ev.out = "ok" /\ Ev.name = "x" /\ Ev.type = Ev.dt /\ Ev.shape = Ev.dims
                                         [] Ev.kind \in {"Unicode", "Enum"} -> Ev.out = "raise:NotImplementedError"
                                         [] Ev.kind \in {"other", "Tuple"} -> Ev.out = "raise:InvalidValue"
                                         [] Ev.kind = "none" -> Ev.out = "raise:InvalidType"), Ev.kind)
TType == /\ IsOp("type") /\ Keep
         /\ ReportAll(Clause("python-type", CASE Ev.kind = "Int" -> Ev.type = "int" [] Ev.kind = "Float" -> Ev.type = "float" [] Ev.kind = "Complex" -> Ev.type = "complex" [] Ev.kind = "Bool" -> Ev.type = "bool"
                                              [] Ev.kind = "Unicode" -> Ev.type = "str" [] Ev.kind = "none" -> Ev.out = "raise:InvalidType" [] OTHER -> Ev.out = "raise:InvalidValue"), Ev.kind)
\* options: values are sequences of numbers (see the driver)
InRange(v) == (~Ev.hasmin \/ v >= Ev.min) /\ (~Ev.hasmax \/ v <= Ev.max)
TOption == /\ IsOp("option") /\ Keep
           /\ LET refused == CASE Ev.kind = "none" -> "raise:InvalidType" [] Ev.kind \in {"other", "Array"} -> "raise:InvalidValue"
                               [] Ev.kind = "Int" /\ Ev.given # <<>> /\ ~InRange(Ev.given[1]) -> "raise:BadParameter"
                               [] Ev.kind = "Enum" /\ Ev.given # <<>> /\ Ev.given[1] > Ev.n -> "raise:BadParameter"
                               [] Ev.junk -> "raise:BadParameter"
                               [] OTHER -> "ok"
                  want == IF Ev.given = <<>> THEN Ev.default ELSE IF Ev.kind = "Bool" THEN <<1 - Ev.default[1]>> ELSE Ev.given
              IN ReportAll(Clause("option-accepts-what-the-trait-takes", Ev.out = refused) \cup Clause("option-value", Ev.out = "ok" /\ refused = "ok" => Ev.res = want), <<refused, want>>)
TShape == /\ IsOp("shape") /\ Keep
          /\ ReportAll(Clause("shape-validated", Ev.out = IF Ev.dims = Ev.shape THEN "ok" ELSE "raise:TraitError") \cup Clause("value-handed-on", Ev.out = "ok" => Ev.same), Ev.dims)
\* lengths are integers (in units); v an integer vector
TLength == /\ IsOp("length") /\ Keep
           /\ LET l2 == Ev.v[1] * Ev.v[1] + Ev.v[2] * Ev.v[2]  good == \E i \in DOMAIN Ev.ls : Ev.ls[i] * Ev.ls[i] = l2 IN
              ReportAll(Clause("length-validated", Ev.out = IF good THEN "ok" ELSE "raise:TraitError") \cup Clause("value-handed-on", Ev.out = "ok" => Ev.same), good)
Known == {"define", "traits", "own", "struct", "table", "dtype", "type", "option", "shape", "length"}
TOther == More /\ Ev.op \notin Known /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TDefine \/ TTraits \/ TOwn \/ TStruct \/ TTable \/ TDtype \/ TType \/ TOption \/ TShape \/ TLength \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
