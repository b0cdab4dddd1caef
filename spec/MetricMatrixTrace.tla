---- MODULE MetricMatrixTrace ----
(* A distance matrix of the C++ core. m: metric as in Metric; pts; dm: matrix, far: farthest distance, avg: average Euclidean      *)
(* distance of an object to its num nearest ones (num 0: not asked), in 1/10000; same: points untouched.                           *)
EXTENDS TraceBase, Geom
M == INSTANCE Metric WITH Below <- 0, Hi <- 0, Kinds <- {}, obj <- [kind |-> ""], cp <- [kind |-> ""], p <- <<>>, q <- <<>>, hist <- 0
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
RECURSIVE SumLeast(_, _)
SumLeast(s, k) == IF k = 0 THEN 0 ELSE LET i == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j] IN s[i] + SumLeast([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]], k - 1)
Others(t, i) == [j \in 1..(Len(t.pts) - 1) |-> t.dm[i][IF j < i THEN j ELSE j + 1]]
Why(t) == LET n == Len(t.pts) IN
    IF ~t.same THEN "points modified"
    ELSE IF Len(t.dm) # n \/ \E i \in DOMAIN t.dm : Len(t.dm[i]) # n THEN "distance matrix has another size"
    ELSE IF \E i, j \in 1..n : ~M!Value(t.m, t.pts[i], t.pts[j], t.dm[i][j]) THEN "distance is not that of the definition (" \o t.m.kind \o ")"
    ELSE IF \E i, j \in 1..n : t.dm[i][j] # t.dm[j][i] THEN "distance matrix is not symmetric"
    ELSE IF t.far # MaxOf({t.dm[i][j] : i, j \in 1..n}) THEN "farthest distance is not the largest of the matrix"
    ELSE IF t.num > 0 /\ LET s == SumSeq([i \in 1..n |-> SumLeast(Others(t, i), t.num)]) IN Abs(t.avg * n * t.num - s) > n * t.num THEN "average distance to the nearest objects is wrong"
    ELSE ""
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_vars
====
