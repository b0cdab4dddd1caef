---- MODULE SequentialTrace ----
(* mode "count" describes the known deviation of the C++ core (a representative is updated with the weight of the number of clusters); it ends in a rejection of its own. *)
(* Record: algo, core, pts, metric, max, tn/td (threshold), un/ud (second threshold), clusters, reps (fixed point 10^4).  The trace is    *)
(* replayed object by object; the cluster an object joins is dictated by the answer, whether it joins, opens or waits by the rule.   *)
EXTENDS TraceBase, Geom, Rational
S == INSTANCE Sequential WITH MaxN <- 0, MaxCoord <- 0, algo <- "", pts <- <<>>, max <- 0, t1 <- 0, t2 <- 0, cl <- <<>>, i <- 0, skipped <- {}, pass <- 0, changed <- FALSE
VARIABLES tid, cl, i, skipped, pass, changed, done, mode, rp, ix
vars == <<tid, cl, i, skipped, pass, changed, done, mode, rp, ix>>
T == Traces[tid]
P == T.pts
N == Len(P)
Ans(t) == [c \in DOMAIN t.clusters |-> {x + 1 : x \in Range(t.clusters[c])}]
Home(x) == CHOOSE c \in DOMAIN T.clusters : x - 1 \in Range(T.clusters[c])
Mine(x) == {c \in DOMAIN cl : cl[c] # {} /\ cl[c] \subseteq Ans(T)[Home(x)]}
(* representatives of the deviating core in units of 10^-3 *)
FDist(m, p, r) == LET df == [k \in DOMAIN p |-> Abs(1000 * p[k] - r[k])] IN
    CASE m = "sq" -> SumSeq([k \in DOMAIN p |-> (df[k] * df[k]) \div 1000]) [] m = "euclid" -> Isqrt(SumSeq([k \in DOMAIN p |-> df[k] * df[k]]))
      [] m = "manhattan" -> SumSeq(df) [] m = "chebyshev" -> MaxOf(Range(df))
FTol(m, d) == IF m = "sq" THEN 20 + (Isqrt(d) * 32) \div 32 ELSE 20
FNear(m, p, rs) == LET d == [c \in DOMAIN rs |-> FDist(m, p, rs[c])] IN {c \in DOMAIN rs : \A e \in DOMAIN rs : d[c] <= d[e] + FTol(m, d[c])}
(* ix: representatives that are not exact in these units; with exact ones (multiples of 1/8) a distance is compared exactly *)
FExact(m, p, r, tn, td) == LET df == [k \in DOMAIN p |-> Abs(1000 * p[k] - r[k])] q == SumSeq([k \in DOMAIN p |-> df[k] * df[k]]) IN
    CASE m = "sq" -> q * td > 1000000 * tn [] m = "euclid" -> q * td * td > 1000000 * tn * tn
      [] m = "manhattan" -> SumSeq(df) * td > 1000 * tn [] m = "chebyshev" -> MaxOf(Range(df)) * td > 1000 * tn
FAnswers(m, p, rs, tn, td) == IF FNear(m, p, rs) \cap ix = {} THEN {\A c \in FNear(m, p, rs) : FExact(m, p, rs[c], tn, td)} ELSE LET ds == {FDist(m, p, rs[c]) : c \in DOMAIN rs} d == MinOf(ds) IN
    IF d * td > 1000 * tn + td * FTol(m, d) THEN {TRUE} ELSE IF d * td < 1000 * tn - td * FTol(m, d) THEN {FALSE} ELSE {TRUE, FALSE}
FWhole(r, p, k) == \A x \in DOMAIN p : ((k - 1) * r[x] + 1000 * p[x]) % (125 * k) = 0
FMove(r, p, k) == [x \in DOMAIN p |-> ((k - 1) * r[x] + 1000 * p[x] + k \div 2) \div k]
Init == /\ tid \in 1..NTraces /\ mode \in (IF Traces[tid].core THEN {"mean", "count"} ELSE {"mean"}) /\ rp = <<[k \in DOMAIN Traces[tid].pts[1] |-> 1000 * Traces[tid].pts[1][k]]>>
        /\ cl = <<>> /\ i = 1 /\ skipped = {} /\ pass = 0 /\ changed = FALSE /\ ix = {}
        /\ done = FALSE
Bad(why) == Reject(tid, i, why) /\ done' = TRUE /\ UNCHANGED <<tid, cl, i, skipped, pass, changed, mode, rp, ix>>
Basic(t) == IF ~IsPartition(Len(t.pts), t.clusters, <<>>) THEN "not a partition"
            ELSE IF \E c \in DOMAIN t.clusters : t.clusters[c] = <<>> THEN "empty cluster"
            ELSE IF Len(t.clusters) > t.max THEN "more clusters than allowed"
            ELSE IF ~t.untouched THEN "input data modified" ELSE ""
Check == /\ pass = 0 /\ IF Basic(T) # "" THEN Bad(Basic(T))
                        ELSE pass' = 1 /\ i' = 2 /\ cl' = <<{1}>> /\ changed' = TRUE /\ UNCHANGED <<tid, skipped, done, mode, rp, ix>>
Opens(x) == Mine(x) = {} /\ cl' = Append(cl, {x}) /\ rp' = Append(rp, [k \in DOMAIN P[x] |-> 1000 * P[x][k]]) /\ UNCHANGED ix
Joins(x, cs) == \E c \in Mine(x) \cap (IF mode = "mean" THEN S!RNear(T.metric, P[x], cs) ELSE FNear(T.metric, P[x], rp)) :
                cl' = [cl EXCEPT ![c] = @ \cup {x}] /\ rp' = (IF mode = "mean" THEN rp ELSE [rp EXCEPT ![c] = FMove(@, P[x], Len(cl))])
                /\ ix' = (IF mode = "count" /\ (c \in ix \/ ~FWhole(rp[c], P[x], Len(cl))) THEN ix \cup {c} ELSE ix)
Far(x, cs, a, b) == IF mode = "mean" THEN S!Answers(T.metric, P, x, cs, a, b) ELSE FAnswers(T.metric, P[x], rp, a, b)
First == /\ pass = 1 /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<tid, done, pass, mode>>
         /\ LET cs == S!Reps(P, cl) IN
            \E far1 \in Far(i, cs, T.tn, T.td), far2 \in Far(i, cs, T.un, T.ud) :
            CASE T.algo = "ttsas" -> IF ~far1 THEN Joins(i, cs) /\ changed' = TRUE /\ UNCHANGED skipped
                                     ELSE IF far2 THEN Opens(i) /\ changed' = TRUE /\ UNCHANGED skipped
                                     ELSE skipped' = skipped \cup {i} /\ UNCHANGED <<cl, changed, rp, ix>>
              [] far1 /\ Len(cl) < T.max -> Opens(i) /\ UNCHANGED <<skipped, changed>>
              [] T.algo = "mbsas" -> skipped' = skipped \cup {i} /\ UNCHANGED <<cl, changed, rp, ix>>
              [] OTHER -> Joins(i, cs) /\ UNCHANGED <<skipped, changed>>
Later == /\ pass = 1 /\ i > N /\ skipped # {} /\ pass' = 2 /\ i' = 1 /\ changed' = TRUE /\ UNCHANGED <<tid, cl, skipped, done, mode, rp, ix>>
(* every later pass of TTSAS: "moved" (pass 2: nothing assigned yet in this pass, 3: something was) *)
Second == /\ pass \in {2, 3} /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<tid, done, mode>>
          /\ IF i \notin skipped THEN UNCHANGED <<cl, skipped, pass, changed, rp, ix>>
             ELSE IF T.algo = "mbsas" THEN Joins(i, S!Reps(P, cl)) /\ skipped' = skipped \ {i} /\ UNCHANGED <<pass, changed>>
             ELSE IF ~changed THEN Opens(i) /\ skipped' = skipped \ {i} /\ pass' = 3 /\ changed' = TRUE
             ELSE LET cs == S!Reps(P, cl) IN
                  \E far1 \in Far(i, cs, T.tn, T.td), far2 \in Far(i, cs, T.un, T.ud) :
                  /\ UNCHANGED changed
                  /\ IF ~far1 THEN Joins(i, cs) /\ skipped' = skipped \ {i} /\ pass' = 3
                     ELSE IF far2 THEN Opens(i) /\ skipped' = skipped \ {i} /\ pass' = 3
                     ELSE UNCHANGED <<cl, skipped, pass, rp, ix>>
Repass == /\ pass \in {2, 3} /\ i > N /\ skipped # {} /\ i' = 1 /\ changed' = (pass = 3) /\ pass' = 2 /\ UNCHANGED <<tid, cl, skipped, done, mode, rp, ix>>
Where(S0) == CHOOSE c \in DOMAIN T.clusters : Ans(T)[c] = S0
CountOk == /\ Len(T.reps) = Len(rp) /\ \A c \in DOMAIN cl : LET h == Home(CHOOSE x \in cl[c] : TRUE) IN
              cl[c] = Ans(T)[h] /\ \A k \in DOMAIN rp[c] : Abs(T.reps[h][k] - 10 * rp[c][k]) <= 40
RepsOk == /\ Len(T.reps) = Len(T.clusters)
          /\ \A c \in DOMAIN T.clusters : FixPoint(T.reps[c], 10000, MeanOf(P, Ans(T)[c]), 2)
End == /\ pass > 0 /\ i > N /\ skipped = {} /\ done' = TRUE /\ UNCHANGED <<tid, cl, i, skipped, pass, changed, mode, rp, ix>>
       /\ IF mode = "count" THEN (CountOk => Reject(tid, i, "representatives are updated with the weight of the number of clusters"))
          ELSE IF RepsOk THEN Accept(tid) ELSE (~T.core => Reject(tid, i, "representative is not the mean of its cluster"))
Next == ~done /\ (Check \/ First \/ Later \/ Second \/ Repass \/ End)
Spec == Init /\ [][Next]_vars
====
