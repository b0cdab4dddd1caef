---- MODULE AgglomerativeTrace ----
(* Record: pts, link, parts = the clusterings for n, n-1, ..., 1 clusters (lists of lists of 0-based indexes). *)
EXTENDS TraceBase, Geom
A == INSTANCE Agglomerative WITH MaxN <- 0, MaxCoord <- 0, Links <- {}, pts <- <<>>, link <- "", part <- {}, k <- 0, last <- <<>>
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Sets(cs) == {{x + 1 : x \in Range(cs[c])} : c \in DOMAIN cs}
Why(t, s) ==
    LET n == Len(t.pts) IN
    IF ~IsPartition(n, t.parts[s], <<>>) THEN "not a partition"
    ELSE IF Len(t.parts[s]) # n - s + 1 \/ \E c \in DOMAIN t.parts[s] : t.parts[s][c] = <<>> THEN "wrong number of clusters"
    ELSE IF s = 1 THEN ""
    ELSE A!StepWhy(t.pts, t.link, Sets(t.parts[s - 1]), Sets(t.parts[s]))
Init == tid \in 1..NTraces /\ l = 1
Step == /\ l > 0 /\ l <= Len(T.parts)
        /\ LET w == Why(T, l) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 ELSE l' = l + 1
        /\ tid' = tid
Finish == l = Len(T.parts) + 1 /\ l' = -2 /\ Accept(tid) /\ tid' = tid
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
