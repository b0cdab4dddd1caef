---- MODULE RockTrace ----
(* Record: pts, radius rn/rd, W (powers), slack, parts = the clusterings asked for n, n-1, ..., 1 clusters. *)
EXTENDS TraceBase, Geom
R == INSTANCE Rock WITH MaxN <- 0, MaxCoord <- 0, MaxR <- 0, pts <- <<>>, r <- 0, part <- {}, k <- 0
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Sets(cs) == {{x + 1 : x \in Range(cs[c])} : c \in DOMAIN cs}
Why(t, s) ==
    LET n == Len(t.pts) IN
    IF ~IsPartition(n, t.parts[s], <<>>) THEN "not a partition"
    ELSE IF \E c \in DOMAIN t.parts[s] : t.parts[s][c] = <<>> THEN "empty cluster"
    ELSE IF s = 1 THEN (IF Sets(t.parts[1]) # {{i} : i \in 1..n} THEN "n clusters are not the single objects" ELSE "")
    ELSE IF Len(t.parts[s]) < n - s + 1 THEN "fewer clusters than requested"
    ELSE R!StepWhy(R!Adj(t.pts, t.rn, t.rd), t.W, t.slack, Sets(t.parts[s - 1]), Sets(t.parts[s]))
Init == tid \in 1..NTraces /\ l = 1
Step == /\ l > 0 /\ l <= Len(T.parts)
        /\ LET w == Why(T, l) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 ELSE l' = l + 1
        /\ tid' = tid
Finish == l = Len(T.parts) + 1 /\ l' = -2 /\ Accept(tid) /\ tid' = tid
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
