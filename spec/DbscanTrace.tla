---- MODULE DbscanTrace ----
EXTENDS TraceBase, Geom
D == INSTANCE Dbscan WITH pts <- <<>>, rad <- 0, minp <- 0, visited <- {}, member <- <<>>, nclust <- 0, frontier <- {},
                          MaxN <- 0, MaxCoord <- 0, MaxR <- 0, MaxP <- 0
VARIABLES tid, pc
Up(s) == {x + 1 : x \in Range(s)}
DM(t) == IF t.mode = "matrix" THEN t.mat
         ELSE [i \in DOMAIN t.pts |-> [j \in DOMAIN t.pts |-> 4 * Sq(t.pts[i], t.pts[j])]]
Rad(t) == IF t.mode = "matrix" THEN t.r2 ELSE t.r2 * t.r2
Why(t) ==
    IF ~IsPartition(t.n, t.clusters, t.noise) THEN "not a partition into clusters and noise"
    ELSE IF \E c \in DOMAIN t.clusters : t.clusters[c] = <<>> THEN "empty cluster"
    ELSE D!Judge(DM(t), t.n, Rad(t), t.mp, {Up(t.clusters[c]) : c \in DOMAIN t.clusters}, Up(t.noise))
Init == tid \in 1..NTraces /\ pc = "check"
Next == pc = "check" /\ pc' = "done" /\ tid' = tid /\ Verdict(tid, 1, Why(Traces[tid]))
Spec == Init /\ [][Next]_<<tid, pc>>
====
