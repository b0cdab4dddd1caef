---- MODULE SelectionTrace ----
(* kind "score": mat, clusters, score (10^4).  "ksearch": pts, kmin, kmax, algo, scores (10^4, for kmin..kmax-1), amount, best.       *)
(* "elbow": pts, kmin, kstep, wce (10^4), amount, small (the errors are compared with those of all partitions), asked, mine.           *)
EXTENDS TraceBase, Geom, Rational
S == INSTANCE Selection WITH Levels <- {}, MaxLen <- 0, scores <- <<>>, pos <- 0, best <- 0, amount <- 0, pts <- <<>>, cl <- <<>>
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Sets(cs) == [c \in DOMAIN cs |-> {x + 1 : x \in Range(cs[c])}]
ScoreWhy(t) ==
    LET n == Len(t.mat) cl == Sets(t.clusters) IN
    IF Len(t.score) # n THEN "not one score for every object"
    ELSE IF \E i \in 1..n : LET s == S!Score(t.mat, cl, i) IN
              IF s[1] = S!NONE THEN t.score[i] \notin {S!NONE, 0} ELSE ~Fix(t.score[i], 10000, s[1], s[2], 1) THEN "score is not (b - a) / max(a, b)"
    ELSE ""
DMat(P) == [i \in DOMAIN P |-> [j \in DOMAIN P |-> Sq(P[i], P[j])]]
KsearchWhy(t) ==
    LET n == Len(t.pts) D == DMat(t.pts)
        known == {k \in DOMAIN t.scores : t.scores[k] # S!NONE} IN
    IF Len(t.scores) # t.kmax - t.kmin THEN "not one average score for every number of clusters"
    ELSE IF \E k \in known : ~ \E p \in S!Parts(n, t.kmin + k - 1) : LET a == S!Average(D, p, n) IN a # S!NONE /\ Abs(a - t.scores[k]) <= 2 /\ S!Stable(t.pts, p, t.algo)
         THEN "average score is not that of a result of the algorithm with so many clusters"
    ELSE IF known = {} THEN (IF t.amount \in t.kmin..(t.kmax - 1) THEN "a number of clusters without score is selected" ELSE "")
    ELSE IF \A k \in known : t.scores[k] < 0 THEN ""
    ELSE IF t.amount - t.kmin + 1 \notin known THEN "a number of clusters without score is selected"
    ELSE IF \E k \in known : t.scores[k] > t.scores[t.amount - t.kmin + 1] + 1 THEN "another number of clusters has a better score"
    ELSE IF Abs(t.best - t.scores[t.amount - t.kmin + 1]) > 1 THEN "reported score is not that of the selected number of clusters"
    ELSE ""
ElbowWhy(t) ==
    LET n == Len(t.pts) x == (t.amount - t.kmin) \div t.kstep + 1 N == Len(t.wce) IN
    IF N # (t.kmax - t.kmin) \div t.kstep + 1 THEN "not one error for every number of clusters"
    ELSE IF t.mine /\ t.asked # [i \in 1..N |-> t.kmin + (i - 1) * t.kstep] THEN "given initializer is not used"
    ELSE IF t.small /\ \E i \in 1..N : ~ \E k \in 1..(t.kmin + (i - 1) * t.kstep) : \E p \in S!Parts(n, k) : Abs(S!Error(t.pts, p) - t.wce[i]) <= 2 * k + 2 /\ S!Stable(t.pts, p, "kmeans")
         THEN "error is not that of a result of K-Means"
    ELSE IF (t.amount - t.kmin) % t.kstep # 0 \/ x < 2 \/ x > N - 1 THEN "selected number is not inside the range"
    ELSE IF \E i \in 2..(N - 1) : S!Off(t.wce, i) > S!Off(t.wce, x) + 4 * N THEN "another error lies farther from the line"
    ELSE ""
Why(t) == IF ~t.untouched THEN "input data modified"
          ELSE CASE t.kind = "score" -> ScoreWhy(t) [] t.kind = "ksearch" -> KsearchWhy(t) [] t.kind = "elbow" -> ElbowWhy(t)
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_vars
====
