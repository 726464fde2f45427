---------------------------- MODULE MCPairForces ----------------------------
(* Sanity of the force laws on all small two-agent scenes: symmetry under exchange, rotation by a quarter turn, repulsion. *)
EXTENDS PairForces, Json
CONSTANTS Xs, Vs, Bodies
Agent(x, v, b) == [x |-> x, v |-> v, parts |-> b, m |-> 4, k |-> 6, mu |-> 5, kappa |-> 3, c |-> 2, tau0 |-> 2]
Rot(p) == <<-p[2], p[1]>>
RotB(b) == [n \in DOMAIN b |-> [o |-> Rot(b[n].o), r |-> b[n].r]]
RotA(a) == [a EXCEPT !.x = Rot(@), !.v = Rot(@), !.parts = RotB(@)]
Init == st = 0 /\ act = [op |-> "init"]
Next == /\ st = 0 /\ st' = 1
        /\ \E x \in Xs \X Xs, v, w \in Vs \X Vs, b, e \in Bodies :
           act' = [op |-> "pair", a |-> Agent(<<0, 0>>, v, b), b |-> Agent(x, w, e)]
Spec == Init /\ [][Next]_<<st, act>>
Emit == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> act']))
A1 == act.a
B1 == act.b
NearZero(f, t) == MaxAbs(f) <= t
Scene == act.op = "pair"
SocOk(a, b) == Colliding(a, b) # {} /\ ClearFirst(a, b)
Exchange == Scene => /\ InSight(A1, B1) = InSight(B1, A1) /\ Touching(A1, B1) = Touching(B1, A1)
                     /\ (Colliding(A1, B1) = {}) = (Colliding(B1, A1) = {})
                     /\ (SocOk(A1, B1) => LET p == Social(A1, B1, A1, 1)  q == Social(B1, A1, A1, -1) IN
                                          p.known = q.known /\ (p.known => NearZero(Add(p.f, Neg(q.f)), p.tol)))
QuarterTurn == Scene => /\ Touching(A1, B1) = Touching(RotA(A1), RotA(B1))
                        /\ (SocOk(A1, B1) => LET p == Social(A1, B1, A1, 1)  q == Social(RotA(A1), RotA(B1), A1, 1) IN
                                             p.known = q.known /\ (p.known => NearZero(Sub(Rot(p.f), q.f), p.tol + 2)))
\* the social force points away from where the bodies would meet and slows the approach
Repels == Scene /\ SocOk(A1, B1) => LET p == Social(A1, B1, A1, 1) IN p.known /\ MaxAbs(p.f) > 20 => Dot(p.f, RelV(A1, B1)) < 0
\* bodies at rest push each other apart when they touch
Pushes == Scene /\ Touching(A1, B1) /\ RelV(A1, B1) = <<0, 0>> =>
          LET z == Closest(A1, B1) D == Root(Len2(z.d)) IN Square(Len2(z.d)) /\ D > 0 => Dot(Contact(z.d, D, D - z.r, 1, <<0, 0>>, A1), z.d) > 0
=============================================================================
