---------------------------- MODULE FollowingTrace ----------------------------
EXTENDS Following, TraceKit

TraceInit == KitInit /\ act = [op |-> "init"] /\ st = 0
IsOp(o) == More /\ Ev.op = o /\ KitNext
Ok == Clause("accepted", Ev.out = "ok") \cup Clause("rest-unchanged", Ev.rest)
Keep == UNCHANGED <<st, act>>
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Dirs(A, want, got) == \A k \in DOMAIN A : A[k].isf => Near(want[k], got[k], 200)
TRel == /\ IsOp("rel") /\ Keep
        /\ ReportAll(Clause("accepted", Ev.out = "ok")
                \cup Clause("heading-away", Ev.out # "ok" \/ Unclear(Ev.a, Ev.b.x) \/ Unclear(Ev.b, Ev.a.x) \/ Ev.res = Relation(Ev.a, Ev.b)), Relation(Ev.a, Ev.b))
TFollow == /\ IsOp("follow") /\ Keep
           /\ LET A == Ev.a  B == FollowLeaders(A, Ev.walls, Ev.sight)  want == LeaderDirs(A, Ev.walls, Ev.sight) IN
              ReportAll(Ok \cup (IF Ev.out # "ok" \/ ~ClearScene(A) THEN {} ELSE
                              Clause("targets", \A k \in DOMAIN A : Ev.b[k].target = B[k].target)
                         \cup Clause("remembered-leader", \A k \in DOMAIN A : Ev.b[k].leader = B[k].leader)
                         \cup Clause("direction", Dirs(A, want, Ev.dirs))
                         \cup Clause("others-keep-direction", \A k \in DOMAIN A : A[k].isf \/ Ev.same[k])), <<B, want>>)
THerd == /\ IsOp("herd") /\ Keep
         /\ LET A == Ev.a  F == FollowHerd(A, Ev.walls, Ev.sight, Ev.far, Ev.count) IN
            ReportAll(Ok \cup (IF Ev.out # "ok" \/ ~ClearScene(A) THEN {} ELSE
                              Clause("targets", \A k \in DOMAIN A : Ev.b[k].target = F.agents[k].target)
                         \cup Clause("remembered-leader", \A k \in DOMAIN A : Ev.b[k].leader = F.agents[k].leader)
                         \cup Clause("direction", Dirs(A, F.dir, Ev.dirs))
                         \cup Clause("others-keep-direction", \A k \in DOMAIN A : A[k].isf \/ Ev.same[k])), <<F.agents, F.dir>>)
TOther == More /\ Ev.op \notin {"rel", "follow", "herd"} /\ KitNext /\ Report("terminates", "a normal event") /\ Keep
TraceNext == TRel \/ TFollow \/ THerd \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<st, act, tid, l>>
=============================================================================
