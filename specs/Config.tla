------------------------------- MODULE Config -------------------------------
(* Configuration files with their specification, and the helpers around them. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES st, act      \* st: [cwd |-> directory, stack |-> directories to come back to]

SeqRange(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* ---- files. A value is a token [t, v, text]: t what it reads as ("int", "frac", "word", "bool"), v in quarters (number of the word, 0 or 1).
\* A rule is [name, kind, hasmin, min, hasmax, max, n, hasdef, def]; a section is [name, keys]; a key is [name, tok].
Num(tok) == IF tok.t = "int" THEN 4 * tok.v ELSE tok.v
Bounds(r, x) == (r.hasmin => x >= 4 * r.min) /\ (r.hasmax => x <= 4 * r.max)
Reads(r, tok) == CASE r.kind = "integer" -> tok.t = "int" /\ Bounds(r, Num(tok))
                   [] r.kind = "float" -> tok.t \in {"int", "frac"} /\ Bounds(r, Num(tok))
                   [] r.kind = "boolean" -> tok.t = "bool" \/ (tok.t = "int" /\ tok.v \in {0, 1})
                   [] r.kind = "option" -> tok.t = "word" /\ tok.v <= r.n
                   [] r.kind = "string" -> TRUE
Converted(r, tok) == CASE r.kind = "integer" -> [t |-> "int", v |-> tok.v, text |-> ""]
                       [] r.kind = "float" -> [t |-> "float", v |-> Num(tok), text |-> ""]
                       [] r.kind = "boolean" -> [t |-> "bool", v |-> tok.v, text |-> ""]
                       [] OTHER -> [t |-> "str", v |-> 0, text |-> tok.text]
Plain(tok) == [t |-> "str", v |-> 0, text |-> tok.text]
KeyOf(s, name) == SelectSeq(s.keys, LAMBDA k : k.name = name)
RuleOf(rules, name) == SelectSeq(rules, LAMBDA r : r.name = name)
GoodRule(s, r) == LET k == KeyOf(s, r.name) IN IF k = <<>> THEN r.hasdef ELSE Reads(r, k[1].tok)
\* every key of every section, or nothing at all
Accepts(rules, sections) == \A i \in DOMAIN sections : \A j \in DOMAIN rules : GoodRule(sections[i], rules[j])
Loaded(rules, s) == {[name |-> k.name, val |-> LET r == RuleOf(rules, k.name) IN IF r = <<>> THEN Plain(k.tok) ELSE Converted(r[1], k.tok)] : k \in SeqRange(s.keys)}
                    \cup {[name |-> r.name, val |-> Converted(r, r.def)] : r \in {x \in SeqRange(rules) : KeyOf(s, x.name) = <<>> /\ x.hasdef}}

\* ---- working directory
Enter(s, d) == [cwd |-> d, stack |-> Append(s.stack, s.cwd)]
Leave(s) == [cwd |-> s.stack[Len(s.stack)], stack |-> SubSeq(s.stack, 1, Len(s.stack) - 1)]

\* ---- arguments of functions: [name, hasdef, def, hasann]; self is left out; the first one without default ends it
RECURSIVE Signature(_)
Signature(args) ==
  IF args = <<>> THEN [items |-> <<>>, out |-> "ok"]
  ELSE LET a == Head(args)  rest == Signature(Tail(args)) IN
       IF a.name = "self" THEN rest
       ELSE IF ~a.hasdef THEN [items |-> <<>>, out |-> "raise:InvalidType"]
       ELSE [items |-> <<[name |-> a.name, def |-> a.def, ann |-> a.hasann]>> \o rest.items, out |-> rest.out]
\* ---- functions named in a configuration: section [name, module, functions]; modules: [name, functions, how],
\* how: what importing it does ("ok", "nothing" for an import error, which skips it; another error, which ends the listing)
RECURSIVE Callables(_, _)
Callables(sections, modules) ==
  IF sections = <<>> THEN [items |-> <<>>, out |-> "ok"]
  ELSE LET s == Head(sections)  m == CHOOSE m \in SeqRange(modules) : m.name = s.module  rest == Callables(Tail(sections), modules)
           have == SelectSeq(s.functions, LAMBDA f : f \in SeqRange(m.functions)) IN
       IF s.functions = <<>> \/ m.how = "nothing" THEN rest
       ELSE IF m.how # "ok" THEN [items |-> <<>>, out |-> "raise:" \o m.how]
       ELSE [items |-> [j \in DOMAIN have |-> <<have[j], m.name>>] \o rest.items, out |-> rest.out]
=============================================================================
