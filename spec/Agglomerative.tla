---- MODULE Agglomerative ----
(* Agglomerative clustering: start from single objects, merge a closest pair of clusters until K remain.      *)
(* Link distances are exact rationals <<numerator, denominator>> of squared Euclidean distances.               *)
EXTENDS Integers, Sequences, FiniteSets, Geom

D2(P, i, j) == Sq(P[i], P[j])
PairDist(P, A, B) == {D2(P, i, j) : i \in A, j \in B}
SumPairs(P, A, B) == SumOver(A, [i \in A |-> SumOver(B, [j \in B |-> D2(P, i, j)])])
SumPts(P, A) == [k \in DOMAIN P[1] |-> SumOver(A, [i \in A |-> P[i][k]])]
Link(P, link, A, B) ==
    LET n == Cardinality(A) m == Cardinality(B) IN
    CASE link = "single"   -> <<MinOf(PairDist(P, A, B)), 1>>
      [] link = "complete" -> <<MaxOf(PairDist(P, A, B)), 1>>
      [] link = "average"  -> <<SumPairs(P, A, B), n * m>>
      [] link = "centroid" -> LET s == SumPts(P, A) t == SumPts(P, B) IN
                              <<SumSeq([k \in DOMAIN s |-> (s[k] * m - t[k] * n) * (s[k] * m - t[k] * n)]), n * n * m * m>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Singletons(n) == {{i} : i \in 1..n}
Pairs(Q) == {p \in SUBSET Q : Cardinality(p) = 2}
PairLink(P, link, p) == LET A == CHOOSE A \in p : TRUE B == CHOOSE B \in p : B # A IN Link(P, link, A, B)
Closest(P, link, Q) == LET ps == Pairs(Q) L == [p \in ps |-> PairLink(P, link, p)] IN {p \in ps : \A q \in ps : Leq(L[p], L[q])}
Merged(Q, p) == (Q \ p) \cup {UNION p}
(* Q -> R is a step of the algorithm *)
StepWhy(P, link, Q, R) ==
    LET p == Q \ R IN
    IF Cardinality(p) # 2 \/ R # Merged(Q, p) THEN "one cluster less does not merge exactly two clusters"
    ELSE IF p \notin Closest(P, link, Q) THEN "the merged pair is not a closest one"
    ELSE ""

(* ---- transition system -------------------------------------------------------------------------- *)
CONSTANTS MaxN, MaxCoord, Links
VARIABLES pts, link, part, k, last
vars == <<pts, link, part, k, last>>
Init == /\ \E n \in 1..MaxN : /\ pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ \A i \in 1..(n-1) : pts[i][1] <= pts[i+1][1]
                              /\ part = Singletons(n) /\ k \in 1..n
        /\ link \in Links /\ last = <<0, 1>>
Merge == /\ Cardinality(part) > k
         /\ \E p \in Closest(pts, link, part) : part' = Merged(part, p) /\ last' = PairLink(pts, link, p)
         /\ UNCHANGED <<pts, link, k>>
Next == Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
N == Len(pts)
TypeOK == UNION part = 1..N /\ {} \notin part /\ \A A, B \in part : A # B => A \cap B = {}
Ends == <>(Cardinality(part) = k)
(* heights never decrease (all links but the centroid one) *)
Monotone == [][link # "centroid" => Leq(last, last')]_vars
(* single link: the clusters are the groups chained by gaps not larger than the last height *)
RECURSIVE Grow(_, _)
Grow(h, S) == LET R == {j \in 1..N : \E i \in S : D2(pts, i, j) <= h} IN IF R = S THEN S ELSE Grow(h, R)
SingleMeaning == (link = "single") => /\ \A A \in part : \A i \in A : A \subseteq Grow(last[1], {i})
                                      /\ \A A, B \in part : A # B => Link(pts, "single", A, B)[1] >= last[1]
(* complete link: no cluster is wider than the last height *)
CompleteMeaning == (link = "complete") => \A A \in part : \A i, j \in A : D2(pts, i, j) <= last[1]
====
