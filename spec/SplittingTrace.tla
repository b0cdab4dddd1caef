---- MODULE SplittingTrace ----
(* Results of X-Means and G-Means: pts, algo ("bic", "mndl", "gmeans"), metric, init (initial centers as rational points, <<>> when chosen by *)
(* the algorithm), k0, kmax (0: no limit), alpha, beta (percent), res = [cl, reps, wce], query, label.                                       *)
EXTENDS TraceBase, Geom, Rational
S == INSTANCE Splitting WITH MaxN <- 0, MaxCoord <- 0, MaxK <- 0, pts <- <<>>, kmax <- 0, cs <- <<>>, cl <- <<>>, phase <- ""
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Ups(cl) == [k \in DOMAIN cl |-> {x + 1 : x \in Range(cl[k])}]
Class(t, c, h) == CASE t.algo = "bic" -> S!BicClass(t.pts, c, h) [] t.algo = "mndl" -> S!MndlClass(t.pts, c, h, t.alpha, t.beta) [] t.algo = "gmeans" -> S!AdClass(t.pts, c, h)
Starts(t) == LET n == Len(t.pts) IN
    IF t.init # <<>> THEN S!Ends(t.pts, 1..n, t.init)
    ELSE IF t.k0 = 1 THEN {<<1..n>>}
    ELSE IF t.k0 = 2 THEN LET h == S!Halves(t.pts, 1..n) IN IF h = {} THEN {<<1..n>>} ELSE h
    ELSE {}
Wce(t, cl, cs) == SumSeq([k \in DOMAIN cl |-> LET s == SumOver(cl[k], [i \in cl[k] |-> RNum(t.metric, t.pts[i], cs[k])]) d == RDen(t.metric, cs[k])
                                              IN 10000 * (s \div d) + (10000 * (s % d)) \div d])
Why(t) ==
    LET n == Len(t.pts) r == t.res IN
    IF ~IsPartition(n, r.cl, <<>>) THEN "not a partition"
    ELSE LET cl == Ups(r.cl) cs == S!Means(t.pts, cl) k == Len(cl) IN
    IF \E c \in DOMAIN cl : cl[c] = {} THEN "empty cluster"
    ELSE IF Len(r.reps) # k THEN "number of centers differs from the number of clusters"
    ELSE IF \E c \in DOMAIN cl : ~FixPoint(r.reps[c], 10000, cs[c], 2) THEN "center is not the mean of its cluster"
    ELSE IF t.metric \in {"sq", "euclid"} /\ S!L!AssignWhy("sq", t.pts, cs, cl) # "" THEN S!L!AssignWhy("sq", t.pts, cs, cl)
    ELSE IF t.kmax > 0 /\ k > Max2(t.k0, t.kmax) THEN "more clusters than allowed"
    ELSE IF t.metric # "euclid" /\ Abs(Wce(t, cl, cs) - r.wce) > k + 2 THEN "total error is not the sum of the distances to the centers"
    ELSE IF t.metric = "sq" /\ (t.kmax = 0 \/ k < t.kmax) /\ \E c \in DOMAIN cl : LET h == S!Halves(t.pts, cl[c]) IN h # {} /\ \A x \in h : Class(t, cl[c], x) = "yes"
         THEN "a cluster that should be split is left"
    ELSE IF t.metric = "sq" /\ Starts(t) # {} /\ ~ \E e \in Starts(t) : \/ Range(e) = Range(cl)
                                                                      \/ \E c \in DOMAIN e : \E h \in S!Halves(t.pts, e[c]) : Class(t, e[c], h) # "no"
         THEN "a cluster is split that should not be"
    ELSE IF Len(t.label) # Len(t.query) THEN "a predicted label is missing"
    ELSE IF \E q \in DOMAIN t.query : t.label[q] + 1 \notin Nearest(t.metric, t.query[q], cs) THEN "predicted label is not the nearest center"
    ELSE IF ~t.repeat THEN "a fixed random state does not reproduce the result"
    ELSE IF ~t.untouched THEN "input data modified"
    ELSE ""
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_vars
====
