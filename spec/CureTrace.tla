---- MODULE CureTrace ----
(* Record: pts, r, cn/cd, steps = for n, n-1, ..., 1 clusters [cl, reps, means] (reps and means fixed point 10^4). *)
EXTENDS TraceBase, Geom, Rational
C == INSTANCE Cure WITH MaxN <- 0, MaxCoord <- 0, MaxR <- 0, Cd <- 1, pts <- <<>>, r <- 0, cn <- 0, reps <- <<>>, k <- 0
VARIABLES tid, l, reps
vars == <<tid, l, reps>>
T == Traces[tid]
Sets(cs) == {{x + 1 : x \in Range(cs[c])} : c \in DOMAIN cs}
At(e, X) == CHOOSE c \in DOMAIN e.cl : {x + 1 : x \in Range(e.cl[c])} = X
Shows(ws, R) == /\ \A i \in DOMAIN ws : \E c \in R : FixPoint(ws[i], 10000, c, 2)
                /\ \A c \in R : \E i \in DOMAIN ws : FixPoint(ws[i], 10000, c, 2)
Candidates(t, e, X) == {R \in C!RepSets(t.pts, X, t.r, t.cn, t.cd) : Shows(e.reps[At(e, X)], R)}
Basic(t, s) ==
    LET e == t.steps[s] n == Len(t.pts) IN
    IF ~IsPartition(n, e.cl, <<>>) THEN "not a partition"
    ELSE IF Len(e.cl) # n - s + 1 \/ \E c \in DOMAIN e.cl : e.cl[c] = <<>> THEN "wrong number of clusters"
    ELSE IF Len(e.means) # Len(e.cl) \/ Len(e.reps) # Len(e.cl) THEN "wrong number of means or representatives"
    ELSE IF \E c \in DOMAIN e.cl : ~FixPoint(e.means[c], 10000, MeanOf(t.pts, {x + 1 : x \in Range(e.cl[c])}), 2) THEN "mean of a cluster is wrong"
    ELSE IF \E c \in DOMAIN e.reps : Len(e.reps[c]) > t.r THEN "more representatives than requested"
    ELSE ""
MergeWhy(t, s) ==
    LET R == Sets(t.steps[s].cl) p == DOMAIN reps \ R IN
    IF Cardinality(p) # 2 \/ R # (DOMAIN reps \ p) \cup {UNION p} THEN "one cluster less does not merge exactly two clusters"
    ELSE IF p \notin C!Closest(reps, 3) THEN "the merged clusters are not the closest by their representatives"
    ELSE IF Candidates(t, t.steps[s], UNION p) = {} THEN "representatives are not shrunk scattered objects of the cluster"
    ELSE IF \E X \in R \ {UNION p} : ~Shows(t.steps[s].reps[At(t.steps[s], X)], reps[X]) THEN "representatives of an untouched cluster changed"
    ELSE ""
Why(t, s) == LET b == Basic(t, s) IN
             IF b # "" THEN b
             ELSE IF s = 1 THEN (IF \E X \in Sets(t.steps[1].cl) : Candidates(t, t.steps[1], X) = {} THEN "representative of a single object" ELSE "")
             ELSE MergeWhy(t, s)
After(t, s) == LET R == Sets(t.steps[s].cl) IN
    [X \in R |-> IF X \in DOMAIN reps THEN reps[X] ELSE CHOOSE r \in Candidates(t, t.steps[s], X) : TRUE]
Init == tid \in 1..NTraces /\ l = 1 /\ reps = [X \in {{}} |-> {}]
Step == /\ l > 0 /\ l <= Len(T.steps)
        /\ LET w == Why(T, l) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 /\ UNCHANGED reps ELSE l' = l + 1 /\ reps' = After(T, l)
        /\ tid' = tid
Finish == l = Len(T.steps) + 1 /\ l' = -2 /\ Accept(tid) /\ UNCHANGED <<tid, reps>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
