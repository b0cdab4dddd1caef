---- MODULE ClaransTrace ----
(* pts, k, medoids and clusters (0-based), starts: the initial medoids of the searches, full: so many neighbours were asked for that the  *)
(* search certainly examined all of them.                                                                                                *)
EXTENDS TraceBase, Geom, Rational
C == INSTANCE Clarans WITH MaxN <- 0, MaxCoord <- 0, MaxK <- 0, MaxNeighbor <- 0, NumLocal <- 0, pts <- <<>>, ms <- <<>>, start <- <<>>, fails <- 0, round <- 0, best <- <<>>, seen <- {}
VARIABLES tid, l
T == Traces[tid]
Up(s) == [i \in DOMAIN s |-> s[i] + 1]
Why(t) ==
    LET n == Len(t.pts) IN
    IF Len(t.medoids) # t.k \/ ~SeqOfIdx(n, t.medoids) \/ ~Distinct(t.medoids) THEN "not the requested number of different medoids"
    ELSE IF ~IsPartition(n, t.clusters, <<>>) THEN "not a partition"
    ELSE IF \E c \in DOMAIN t.clusters : Len(t.clusters[c]) = 0 THEN "empty cluster"
    ELSE LET ms == Up(t.medoids)
             near == [i \in 1..n |-> {m \in DOMAIN ms : Sq(t.pts[i], t.pts[ms[m]]) = C!NearestIn(t.pts, i, ms)}]
             cand == [c \in DOMAIN t.clusters |-> {m \in DOMAIN ms : \A i \in Range(Up(t.clusters[c])) : m \in near[i]}] IN
    IF \E c \in DOMAIN cand : cand[c] = {} THEN "object is not in the cluster of its nearest medoid"
    ELSE IF ~SDR(cand, 1, {}) THEN "two clusters for one medoid"
    ELSE IF \E s \in DOMAIN t.starts : C!Cost(t.pts, Up(t.starts[s])) < C!Cost(t.pts, ms) THEN "worse than the initial medoids of a search"
    ELSE IF t.full /\ ~C!LocalOptimum(t.pts, ms) THEN "an examined neighbour has a lower cost"
    ELSE IF ~t.untouched THEN "input data modified"
    ELSE ""
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_<<tid, l>>
====
