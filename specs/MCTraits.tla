------------------------------ MODULE MCTraits ------------------------------
(* Up to N classes are defined, each from any bases. *)
EXTENDS Traits, Json
CONSTANTS N, Names
Pairs(S) == {p \in S \X S : p[1] # p[2]}
Owns == {<<>>} \cup {<<[name |-> a, kind |-> "Int"]>> : a \in Names} \cup {<<[name |-> p[1], kind |-> "Int"], [name |-> p[2], kind |-> "Float"]>> : p \in Pairs(Names)}
BaseSets == {<<>>} \cup {<<a>> : a \in DOMAIN st} \cup {<<p[1], p[2]>> : p \in Pairs(DOMAIN st)}
Init == st = <<>> /\ act = [op |-> "init"]
Define == /\ Len(st) < N
          /\ \E bs \in BaseSets, o \in Owns :
               /\ act' = [op |-> "define", bases |-> bs, own |-> o]
               /\ st' = IF CanDefine(st, bs) THEN Append(st, [bases |-> bs, own |-> o]) ELSE st
Next == Define
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
View == st
TypeOK == \A c \in DOMAIN st : \A i \in DOMAIN st[c].bases : st[c].bases[i] < c
All(c) == Traits(st, c, {}, {})
\* each name once; no name of any ancestor lost; a class comes before its bases
Once == \A c \in DOMAIN st : \A i, j \in DOMAIN All(c) : All(c)[i].name = All(c)[j].name => i = j
NoneLost == \A c \in DOMAIN st : {All(c)[i].name : i \in DOMAIN All(c)} = UNION {{st[d].own[i].name : i \in DOMAIN st[d].own} : d \in SeqRange(Mro(st, c))}
Derived == \A c \in DOMAIN st : LET m == Mro(st, c) IN \A i, j \in DOMAIN m : m[j] \in SeqRange(st[m[i]].bases) => i < j
=============================================================================
