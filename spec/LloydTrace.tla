---- MODULE LloydTrace ----
(* Recorded K-Means / K-Medians executions, iteration by iteration. Record: pts, kind ("mean"/"median"), metric,     *)
(* exact = TRUE when every *)
(* iteration was observed, init = initial representatives <<[v,d]..>>, steps = <<[cl, reps(fixed point 10^4)]>>, itermax, tn/td tolerance,     *)
(* final = [cl, reps, wce], query/label = predicted points.                                                           *)
EXTENDS TraceBase, Geom, Rational
L == INSTANCE Lloyd WITH MaxN <- 0, MaxCoord <- 0, MaxK <- 0, Kind <- "", Metric <- "", pts <- <<>>, cs <- <<>>, cl <- <<>>, steps <- 0, done <- FALSE
VARIABLES tid, l, cs, prev
Up(s) == {x + 1 : x \in Range(s)}
Ups(cl) == [k \in DOMAIN cl |-> Up(cl[k])]
T == Traces[tid]
Init == /\ tid \in 1..NTraces /\ l = 1 /\ cs = Traces[tid].init /\ prev = <<>>

StepWhy(t, e) ==
    IF ~IsPartition(Len(t.pts), e.cl, <<>>) THEN "not a partition"
    ELSE LET cl == Ups(e.cl) IN
         LET w == L!AssignWhy(t.metric, t.pts, cs, cl) IN
         IF w # "" THEN w
         ELSE LET nc == L!Updated(t.kind, t.pts, cl) IN
              IF Len(e.reps) # Len(nc) THEN "number of representatives differs from the number of clusters"
              ELSE IF \E k \in DOMAIN nc : ~FixPoint(e.reps[k], 10000, nc[k], 2) THEN "representative is not the " \o t.kind \o " of its cluster"
              ELSE IF l > 1 /\ prev # <<>> /\ t.tol /\ Len(prev) = Len(cs)
                        /\ \A k \in DOMAIN cs : MovedLess(t.metric, prev[k], cs[k], t.tn, t.td)
                   THEN "iterated although no representative had moved by more than the tolerance"
              ELSE IF l > t.itermax THEN "more iterations than the limit"
              ELSE ""

Step == /\ l <= Len(T.steps)
        /\ LET e == T.steps[l] w == StepWhy(T, e) IN
           IF w # "" THEN Reject(tid, l, w) /\ l' = -1 /\ UNCHANGED <<cs, prev>>
           ELSE l' = l + 1 /\ prev' = cs /\ cs' = L!Updated(T.kind, T.pts, Ups(e.cl))
        /\ tid' = tid

Wce(t, cl) ==     \* 100 * total error for "euclid" (within n), else exact numerator list per cluster
    CASE t.metric = "euclid" -> SumSeq([k \in DOMAIN cl |-> SumOver(cl[k], [i \in cl[k] |-> Root100(RNum("euclid", t.pts[i], cs[k]), RDen("euclid", cs[k]))])])
      [] OTHER -> SumSeq([k \in DOMAIN cl |->
             (10000 * SumOver(cl[k], [i \in cl[k] |-> RNum(t.metric, t.pts[i], cs[k])])) \div RDen(t.metric, cs[k])])
(* without an observer an iteration that changes nothing cannot be seen *)
Settled(t, f) == L!AssignWhy(t.metric, t.pts, cs, Ups(f.cl)) = "" /\ L!Updated(t.kind, t.pts, Ups(f.cl)) = cs
EndWhy(t) ==
    LET f == t.final n == Len(t.steps) IN
    IF n = 0 THEN (IF t.itermax = 0 THEN (IF f.cl = <<>> THEN "" ELSE "clusters without an iteration") ELSE "no iteration was made")
    ELSE IF f.cl # t.steps[n].cl THEN "final clusters are not those of the last iteration"
    ELSE IF f.reps # t.steps[n].reps THEN "final representatives are not those of the last iteration"
    ELSE IF t.tol /\ n < t.itermax /\ (t.exact \/ (~Settled(t, f) /\ n < 10)) /\ Len(prev) = Len(cs) /\ \E k \in DOMAIN cs : MovedMore(t.metric, prev[k], cs[k], t.tn, t.td)
         THEN "stopped although a representative still moved by more than the tolerance"
    ELSE IF t.haswce /\ (IF t.metric = "euclid" THEN Abs(100 * Wce(t, Ups(f.cl)) - f.wce) > 100 * (Len(t.pts) + 1)
                         ELSE Abs(Wce(t, Ups(f.cl)) - f.wce) > Len(cs) + 2) THEN "total error is not the sum of the distances to the representatives"
    ELSE IF Len(t.label) # Len(t.query) THEN "a predicted label is missing"
    ELSE IF \E q \in DOMAIN t.query : t.label[q] + 1 \notin Nearest(t.metric, t.query[q], cs) THEN "predicted label is not the nearest representative"
    ELSE IF ~t.untouched THEN "input data modified"
    ELSE IF ~t.repeat THEN "the same input gave another answer"
    ELSE ""
End == /\ l = Len(T.steps) + 1 /\ l' = -1 /\ Verdict(tid, l, EndWhy(T)) /\ UNCHANGED <<tid, cs, prev>>
Next == l > 0 /\ (Step \/ End)
Spec == Init /\ [][Next]_<<tid, l, cs, prev>>
====
