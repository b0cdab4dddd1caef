---- MODULE KMedoidsTrace ----
(* Record kind "pam": pts, metric | mat, init (0-based medoids), tol, runs = for itermax = 0, 1, 2, ... [cl, labels, medoids, it, dev] (dev times *)
(* sc), query/label; kind "build": medoids (0-based).  Distances are integers; "euclid" is taken in units of 1/1000 with a slack for rounding.    *)
EXTENDS TraceBase, Geom, Rational
K == INSTANCE KMedoids WITH MaxN <- 0, MaxCoord <- 0, MaxTol <- 0, pts <- <<>>, med <- {}, spare <- 0, it <- 0, itermax <- 0, tol <- 0, stopped <- FALSE
VARIABLES tid, l, med, spare, stopped, its, D
vars == <<tid, l, med, spare, stopped, its, D>>
T == Traces[tid]
Unit(t) == IF t.metric = "euclid" THEN 1000 ELSE 1
Slack(t) == IF t.metric = "euclid" THEN 2 * Len(t.pts) ELSE 0
Dist(m, p, q) == CASE m = "sq" -> Sq(p, q) [] m = "manhattan" -> Manhattan(p, q) [] m = "chebyshev" -> Chebyshev(p, q) [] m = "euclid" -> Isqrt(Sq(p, q) * 1000000)
Matrix(t) == IF t.metric = "matrix" THEN t.mat ELSE [i \in DOMAIN t.pts |-> [j \in DOMAIN t.pts |-> Dist(t.metric, t.pts[i], t.pts[j])]]
Ups(s) == {x + 1 : x \in Range(s)}
Init == /\ tid \in 1..NTraces /\ l = 0 /\ med = {} /\ spare = 0 /\ stopped = FALSE /\ its = 0 /\ D = Matrix(Traces[tid])
(* the reported state describes itself *)
StateWhy(t, r) ==
    LET n == Len(D) M == r.medoids IN
    IF ~IsPartition(n, r.cl, <<>>) \/ \E c \in DOMAIN r.cl : r.cl[c] = <<>> THEN "not a partition into non-empty clusters"
    ELSE IF Len(M) # Len(r.cl) THEN "number of medoids differs from the number of clusters"
    ELSE IF \E c \in DOMAIN M : M[c] \notin Range(r.cl[c]) THEN "medoid is not an object of its cluster"
    ELSE IF \E c \in DOMAIN r.cl : \E i \in Range(r.cl[c]) : \E e \in DOMAIN M : D[i + 1][M[e] + 1] < D[i + 1][M[c] + 1] THEN "object is not in the cluster of a nearest medoid"
    ELSE IF Len(r.labels) # n \/ \E c \in DOMAIN r.cl : \E i \in Range(r.cl[c]) : r.labels[i + 1] # c - 1 THEN "labels do not describe the clusters"
    ELSE IF Abs(r.dev - K!Deviation(D, Ups(M))) > Slack(t) THEN "total deviation is not the sum of the distances to the medoids"
    ELSE ""
(* run k (itermax = k) continues the state of run k - 1 by one iteration *)
MoveWhy(t, k) ==
    LET r == t.runs[k + 1] M == K!Classes(D, Ups(r.medoids)) d == K!Deviation(D, M) o == K!Deviation(D, med) sl == Slack(t) IN
    IF r.it # (IF stopped THEN its ELSE k) THEN "number of iterations is wrong"
    ELSE IF stopped THEN (IF M # med THEN "changed after the stop condition" ELSE "")
    ELSE IF K!Improves(D, med, spare, -sl)
         THEN IF M \notin K!Swaps(D, med, spare) THEN "not a swap of one medoid"
              ELSE IF d > K!Best(D, med, spare) + sl THEN "not a best swap"
              ELSE ""
    ELSE IF M # med /\ ~(K!Improves(D, med, spare, sl) /\ M \in K!Swaps(D, med, spare) /\ d <= K!Best(D, med, spare) + sl) THEN "a swap that does not lower the deviation was applied"
    ELSE ""
Why(t, k) == IF k = 0 THEN (IF t.runs[1].cl # <<>> \/ t.runs[1].it # 0 THEN "iterated although the limit is zero" ELSE "")
             ELSE LET w == StateWhy(t, t.runs[k + 1]) IN IF w # "" THEN w ELSE MoveWhy(t, k)
After(t, k) == LET r == t.runs[k + 1] M == K!Classes(D, Ups(r.medoids)) drop == K!Deviation(D, med) - K!Deviation(D, M) IN
    /\ med' = M /\ spare' = spare - (Cardinality(M) - Cardinality(med)) /\ its' = r.it
    /\ IF stopped THEN stopped' = TRUE
       ELSE IF M = med THEN stopped' = TRUE
       ELSE LET x == drop - t.tol * Unit(t) IN
            IF Abs(x) <= Slack(t) /\ Slack(t) > 0 THEN stopped' \in BOOLEAN ELSE stopped' = (x <= 0)
Start == LET S == Ups(T.init) M == K!Classes(D, S) IN med' = M /\ spare' = Len(T.init) - Cardinality(M) /\ stopped' = FALSE /\ its' = 0
Step == /\ T.kind = "pam" /\ l >= 0 /\ l < Len(T.runs) /\ UNCHANGED <<tid, D>>
        /\ LET w == Why(T, l) IN
           IF w # "" THEN Reject(tid, l, w) /\ l' = -1 /\ UNCHANGED <<med, spare, stopped, its>>
           ELSE l' = l + 1 /\ IF l = 0 THEN Start ELSE After(T, l)
EndWhy(t) == IF ~stopped /\ Len(t.runs) < t.limit THEN "stopped before a local optimum or the tolerance was reached"
             ELSE IF \E q \in DOMAIN t.query : LET M == t.runs[Len(t.runs)].medoids IN
                       \E e \in DOMAIN M : Dist(t.metric, t.query[q], t.pts[M[e] + 1]) < Dist(t.metric, t.query[q], t.pts[M[t.label[q] + 1] + 1]) THEN "predicted label is not the nearest medoid"
             ELSE IF ~t.untouched THEN "input data modified" ELSE ""
End == /\ T.kind = "pam" /\ l = Len(T.runs) /\ l' = -1 /\ Verdict(tid, l, EndWhy(T)) /\ UNCHANGED <<tid, med, spare, stopped, its, D>>
Build == /\ T.kind = "build" /\ l = 0 /\ l' = -1 /\ UNCHANGED <<tid, med, spare, stopped, its, D>>
         /\ Verdict(tid, l, IF Len(T.medoids) # T.k THEN "wrong number of medoids" ELSE K!BuildWhy(D, [i \in DOMAIN T.medoids |-> T.medoids[i] + 1], Slack(T)))
Next == l >= 0 /\ (Step \/ End \/ Build)
Spec == Init /\ [][Next]_vars
====
