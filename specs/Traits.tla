------------------------------- MODULE Traits -------------------------------
(* Classes with declared attributes (traits). A class is [bases, own]: bases are numbers of classes defined before,
   own is the sequence of [name, kind] it declares. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act       \* st: sequence of classes

SeqRange(s) == {s[i] : i \in DOMAIN s}
NonEmpty(ss) == SelectSeq(ss, LAMBDA s : s # <<>>)
Drop(s, x) == IF s # <<>> /\ Head(s) = x THEN Tail(s) ELSE s
\* the order in which Python looks at the bases; <<0>> when there is none
RECURSIVE Merge(_)
Merge(ss) ==
  LET n == NonEmpty(ss) IN
  IF n = <<>> THEN <<>>
  ELSE LET good == {i \in DOMAIN n : \A j \in DOMAIN n : Head(n[i]) \notin SeqRange(Tail(n[j]))} IN
       IF good = {} THEN <<0>>
       ELSE LET i == CHOOSE i \in good : \A j \in good : i <= j
                x == Head(n[i])
                rest == Merge([j \in DOMAIN n |-> Drop(n[j], x)])
            IN IF rest # <<>> /\ rest[Len(rest)] = 0 THEN <<0>> ELSE <<x>> \o rest
RECURSIVE Mro(_, _)
LinOf(cs, bases) == Merge([i \in DOMAIN bases |-> Mro(cs, bases[i])] \o <<bases>>)
Mro(cs, c) == <<c>> \o LinOf(cs, cs[c].bases)
CanDefine(cs, bases) == LET m == LinOf(cs, bases) IN ~(m # <<>> /\ m[Len(m)] = 0)

\* the traits of a class: each name once, as declared by the first class (in that order) that declares it
RECURSIVE Collect(_, _, _)
Collect(cs, order, seen) ==
  IF order = <<>> THEN <<>>
  ELSE LET c == Head(order)
           mine == SelectSeq(cs[c].own, LAMBDA t : t.name \notin seen)
       IN [i \in DOMAIN mine |-> [name |-> mine[i].name, from |-> c]] \o Collect(cs, Tail(order), seen \cup {t.name : t \in SeqRange(cs[c].own)})
Traits(cs, c, noNames, noClasses) == Collect(cs, SelectSeq(Mro(cs, c), LAMBDA d : d \notin noClasses), noNames)
OwnTraits(cs, c, noNames) == SelectSeq([i \in DOMAIN cs[c].own |-> [name |-> cs[c].own[i].name, from |-> c]], LAMBDA t : t.name \notin noNames)
KindOf(cs, t) == LET s == SelectSeq(cs[t.from].own, LAMBDA o : o.name = t.name) IN s[1].kind

\* the default of a trait of that kind, as the table shows it
DefText(kind) == CASE kind = "Int" -> "1" [] kind = "Float" -> "0.5" [] kind = "Complex" -> "(1+2j)" [] kind = "Bool" -> "False" [] kind = "Unicode" -> "alpha" [] kind = "Array" -> "[0. 0.]"
\* numpy types of kinds of traits
Plain == {"Int", "Float", "Complex", "Bool"}
Dtype(kind) == CASE kind = "Int" -> "int64" [] kind = "Float" -> "float64" [] kind = "Complex" -> "complex128" [] kind = "Bool" -> "bool"
=============================================================================
