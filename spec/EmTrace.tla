---- MODULE EmTrace ----
(* pts, exact: initial means [v, d] and integer covariances are known; steps: state after 1, 2, ... iterations [means, covs (10^4), rc (10^5), *)
(* cl].  With exact = FALSE only the answer itself is judged.                                                                              *)
EXTENDS TraceBase, Geom, Rational
M == INSTANCE Em WITH MaxN <- 0, MaxCoord <- 0, Steps <- 0, pts <- <<>>, mean <- <<>>, var <- <<>>, w <- <<>>, r <- <<>>, like <- 0, step <- 0
VARIABLES tid, l
T == Traces[tid]
ShapeWhy(t, s) ==
    LET n == Len(t.pts) K == Len(s.rc) IN
    IF Len(s.means) # K \/ Len(s.covs) # K \/ Len(s.cl) # K THEN "numbers of clusters, centers, covariances and responsibilities differ"
    ELSE IF ~IsPartition(n, s.cl, <<>>) THEN "not a partition"
    ELSE IF \E k \in 1..K : Len(s.cl[k]) = 0 THEN "empty cluster"
    ELSE IF \E k \in 1..K : Len(s.rc[k]) # n \/ \E i \in 1..n : s.rc[k][i] \notin 0..100000 THEN "responsibility is not between zero and one"
    ELSE IF \E i \in 1..n : Abs(SumSeq([k \in 1..K |-> s.rc[k][i]]) - 100000) > K + 2 THEN "responsibilities of an object do not sum to one"
    ELSE IF \E k \in 1..K : \E i \in Range(s.cl[k]) : \E j \in 1..K : s.rc[j][i + 1] > s.rc[k][i + 1] + 1 THEN "object is not in the most responsible component"
    ELSE ""
Mass(s, k) == SumSeq(s.rc[k])
MWhy(t, s) ==
    LET n == Len(t.pts) D == 1..Len(t.pts[1]) IN
    IF \E k \in DOMAIN s.rc : Mass(s, k) > 20000 /\ \E d \in D : Abs((100 * SumSeq([i \in 1..n |-> s.rc[k][i] * t.pts[i][d]])) \div Mass(s, k) - s.means[k][d] \div 100) > 2
    THEN "mean is not the weighted mean"
    ELSE IF \E k \in DOMAIN s.rc : Mass(s, k) > 20000 /\ \E e \in 1..Len(s.covs[k]) :
              LET a == IF e = 3 THEN 2 ELSE 1 b == IF e = 1 THEN 1 ELSE 2
                  mm == ((s.means[k][a] \div 10) * (s.means[k][b] \div 10)) \div 10000
              IN Abs((100 * SumSeq([i \in 1..n |-> s.rc[k][i] * t.pts[i][a] * t.pts[i][b]])) \div Mass(s, k) - mm - s.covs[k][e] \div 100) > 4
    THEN "covariance is not the weighted covariance"
    ELSE ""
Both(s, i) == {p \in (DOMAIN s.rc) \X (DOMAIN s.rc) : p[1] < p[2] /\ s.rc[p[1]][i] >= 5000 /\ s.rc[p[2]][i] >= 5000}
(* ln of a responsibility, 10^4 *)
Lr(x) == M!Ln(x)
Ratio(s, i, p) == Lr(s.rc[p[1]][i]) - Lr(s.rc[p[2]][i])
(* responsibilities of less than 2 % need no exact ratio, but the order of densities *)
E1(t, s, F(_, _, _)) ==
    \A i \in DOMAIN t.pts : LET f == [k \in DOMAIN t.init |-> F(t.pts[i], t.init[k].m, t.init[k].s)] IN
        /\ \A p \in Both(s, i) : Abs(f[p[1]] - f[p[2]] - Ratio(s, i, p)) <= 250
        /\ \A a, b \in DOMAIN t.init : s.rc[a][i] >= 20000 /\ s.rc[b][i] < 5000 => f[a] - f[b] > 13000
E2(t, b, s) ==      \* one dimension, from the state b to the responsibilities of s
    \A i \in DOMAIN t.pts : LET f == [k \in DOMAIN b.rc |-> Lr(Mass(b, k) \div 100) + M!LogDensity1(t.pts[i][1], b.means[k][1], b.covs[k][1])] IN
        \A p \in Both(s, i) : Abs(f[p[1]] - f[p[2]] - Ratio(s, i, p)) <= 1500
Sound(b) == \A k \in DOMAIN b.rc : b.covs[k][1] >= 5000 /\ Mass(b, k) >= 20000
StepWhy(t) ==
    LET s == t.steps[l] sh == ShapeWhy(t, s) IN
    IF sh # "" THEN sh
    ELSE IF ~t.exact THEN ""
    ELSE IF l = 1 THEN
        (IF Len(s.rc) # Len(t.init) THEN ""
         ELSE IF MWhy(t, s) # "" THEN MWhy(t, s)
         ELSE IF ~E1(t, s, M!LogDensity) THEN (IF E1(t, s, M!LogDensityNorm) THEN "density uses the norm of the covariance" ELSE "responsibility is not the share of the weighted density")
         ELSE "")
    ELSE IF Len(t.steps[l - 1].rc) # Len(s.rc) \/ Len(s.rc) # Len(t.init) THEN ""
    ELSE IF MWhy(t, s) # "" THEN MWhy(t, s)
    ELSE IF Len(t.pts[1]) = 1 /\ Sound(t.steps[l - 1]) /\ ~E2(t, t.steps[l - 1], s) THEN "responsibility is not the share of the weighted density"
    ELSE ""
Init == tid \in 1..NTraces /\ l = 1
Step == /\ l <= Len(T.steps)
        /\ LET w == StepWhy(T) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 ELSE l' = l + 1
        /\ tid' = tid
End == l = Len(T.steps) + 1 /\ l' = -1 /\ tid' = tid /\ Verdict(tid, l, IF ~T.untouched THEN "input data modified" ELSE IF ~T.repeat THEN "the same input gave another answer" ELSE "")
Next == l > 0 /\ (Step \/ End)
Spec == Init /\ [][Next]_<<tid, l>>
====
