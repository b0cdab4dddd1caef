---- MODULE GeneticTrace ----
(* kind "run": pts, k, gens, glob / loc: best ever and best of the population per generation [ch, ff], mean, final [ch, ff, clusters].       *)
(* kind "prob": w (weights as given, integers), p (cumulated probabilities, 10^4), draws <<u (10^4), index>>.                              *)
EXTENDS TraceBase, Geom, Rational
G == INSTANCE Genetic WITH N <- 0, K <- 0, Pop <- 0, Gens <- 0, Data <- <<>>, pop <- <<>>, best <- <<>>, gen <- 0, phase <- "", last <- <<>>
VARIABLES tid, l
T == Traces[tid]
Bad(t, e) == IF ~G!Valid(e.ch, Len(t.pts), t.k) THEN "chromosome does not give every object one cluster"
             ELSE IF Abs(e.ff - G!Fitness(t.pts, e.ch)) > 2 * Len(t.pts) THEN "fitness is not the sum of distances to the centers of the chromosome"
             ELSE ""
RECURSIVE FirstBad(_, _, _)
FirstBad(t, es, i) == IF i > Len(es) THEN "" ELSE LET w == Bad(t, es[i]) IN IF w # "" THEN w ELSE FirstBad(t, es, i + 1)
RunWhy(t) ==
    LET g == t.glob o == t.loc N == t.gens + 1 IN
    IF Len(g) # N \/ Len(o) # N \/ Len(t.mean) # N THEN "not one observation per generation"
    ELSE IF FirstBad(t, g, 1) # "" THEN FirstBad(t, g, 1)
    ELSE IF FirstBad(t, o, 1) # "" THEN FirstBad(t, o, 1)
    ELSE IF g[1].ff # o[1].ff THEN "best of the first generation is not the best ever"
    ELSE IF \E i \in 2..N : g[i].ff # Min2(g[i - 1].ff, o[i].ff) THEN "best ever is not the best of the generations"
    ELSE IF \E i \in 2..N : g[i].ch # (IF o[i].ff < g[i - 1].ff THEN o[i].ch ELSE g[i - 1].ch) /\ g[i].ch # o[i].ch THEN "best ever is not a chromosome of a generation"
    ELSE IF \E i \in 1..N : t.mean[i] < o[i].ff - 1 THEN "mean fitness is better than the best"
    ELSE IF t.final.ch # g[N].ch \/ t.final.ff # g[N].ff THEN "answer is not the best ever"
    ELSE IF Len(t.final.clusters) # t.k \/ \E c \in 1..t.k : [i \in DOMAIN t.final.clusters[c] |-> t.final.clusters[c][i] + 1] # SelectSeq([i \in 1..Len(t.pts) |-> i], LAMBDA i : t.final.ch[i] = c - 1)
         THEN "clusters are not those of the best chromosome"
    ELSE IF ~t.repeat THEN "a fixed random state does not reproduce the result"
    ELSE IF ~t.untouched THEN "input data modified"
    ELSE ""
(* weights 1/w scaled by 5040 *)
Inv(w) == [i \in DOMAIN w |-> IF w[i] = 0 THEN 0 ELSE 5040 \div w[i]]
ProbWhy(t) ==
    LET v == Inv(t.w) total == G!Cumulated(v, Len(v)) IN
    IF Len(t.p) # Len(v) THEN "not one probability per chromosome"
    ELSE IF \E i \in DOMAIN v : ~Fix(t.p[i], 10000, G!Cumulated(v, i), total, 1) THEN "probability is not proportional to the inverse fitness"
    ELSE IF \E d \in DOMAIN t.draws : LET u == t.draws[d][1] i == t.draws[d][2] + 1 IN
              i \notin DOMAIN v \/ u * total > 10000 * G!Cumulated(v, i) + total \/ (i > 1 /\ u * total + total < 10000 * G!Cumulated(v, i - 1))
         THEN "draw does not select the chromosome of its share"
    ELSE ""
Why(t) == IF t.kind = "run" THEN RunWhy(t) ELSE ProbWhy(t)
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_<<tid, l>>
====
