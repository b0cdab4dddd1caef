---- MODULE Selection ----
(* Silhouette scores, the search for the best average score, the elbow.  Scores are exact fractions, averages fixed point (10^4). *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational

NONE == 2000000003                       \* not a number
(* clusters: seq of sets of 1-based objects, D: distances *)
HomeOf(cl, i) == CHOOSE c \in DOMAIN cl : i \in cl[c]
To(D, i, S) == SumOver(S, [j \in S |-> D[i][j]])
ANum(D, cl, i) == To(D, i, cl[HomeOf(cl, i)])
ADen(cl, i) == Cardinality(cl[HomeOf(cl, i)]) - 1
(* nearest other cluster: <<sum, size>> with the least ratio *)
Other(D, cl, i) == LET f == [c \in DOMAIN cl |-> <<To(D, i, cl[c]), Cardinality(cl[c])>>] o == DOMAIN cl \ {HomeOf(cl, i)} IN
    f[CHOOSE c \in o : \A e \in o : f[c][1] * f[e][2] <= f[e][1] * f[c][2]]
(* s = (b - a) / max(a, b) as <<numerator, denominator>>, denominator > 0; an object alone in its cluster has none *)
Score(D, cl, i) ==
    IF ADen(cl, i) = 0 THEN <<NONE, 1>>
    ELSE LET A == ANum(D, cl, i) m == ADen(cl, i) o == Other(D, cl, i) B == o[1] q == o[2] IN      \* a = A/m, b = B/q
         IF A = 0 /\ B = 0 THEN <<0, 1>>
         ELSE IF B * m >= A * q THEN <<B * m - A * q, B * m>> ELSE <<B * m - A * q, A * q>>
Fixed(s) == IF s[1] = NONE THEN NONE ELSE (2 * s[1] * 10000 + s[2]) \div (2 * s[2])
Average(D, cl, n) == LET f == [i \in 1..n |-> Fixed(Score(D, cl, i))] IN IF NONE \in Range(f) THEN NONE ELSE SumSeq(f) \div n
(* all partitions of 1..n into exactly k blocks, as sequences of sets *)
RECURSIVE Parts(_, _)
Parts(n, k) == IF k < 1 \/ k > n THEN {}
               ELSE IF n = 1 THEN {<<{1}>>}
               ELSE {Append(p, {n}) : p \in Parts(n - 1, k - 1)} \cup {[p EXCEPT ![c] = @ \cup {n}] : p \in Parts(n - 1, k), c \in 1..k}
StableBy(P, cl, R(_), m) == LET cs == [c \in DOMAIN cl |-> R(cl[c])] IN \A c \in DOMAIN cl : \A i \in cl[c] : c \in Nearest(m, P[i], cs)
(* what the algorithm can end with: blocks around their means, medians, medoids *)
Stable(P, cl, algo) == CASE algo = "kmeans" -> StableBy(P, cl, LAMBDA S : MeanOf(P, S), "sq")
    [] algo = "kmedians" -> StableBy(P, cl, LAMBDA S : MedianOf(P, S), "sq")
    [] algo = "kmedoids" -> \E f \in [DOMAIN cl -> DOMAIN P] : (\A c \in DOMAIN cl : f[c] \in cl[c]) /\ \A c \in DOMAIN cl : \A i \in cl[c] : \A e \in DOMAIN cl : Sq(P[i], P[f[c]]) <= Sq(P[i], P[f[e]])
(* total error of a partition (10^4), each block rounded *)
BlockErr(P, S) == LET n == Cardinality(S) IN
    SumSeq([d \in DOMAIN P[1] |-> ((n * SumOver(S, [i \in S |-> P[i][d] * P[i][d]]) - SumOver(S, [i \in S |-> P[i][d]]) * SumOver(S, [i \in S |-> P[i][d]])) * 10000) \div n])
Error(P, cl) == SumSeq([c \in DOMAIN cl |-> BlockErr(P, cl[c])])
(* twice the area of the triangle of the point with the first and the last error: its distance to the line, up to a common factor *)
Off(w, i) == LET n == Len(w) - 1 IN Abs((w[1] - w[n + 1]) * (i - 1) + n * w[i] - n * w[1])

(* ---- transition system: the search over k, with arbitrary average scores; the elbow over arbitrary errors ------------------ *)
CONSTANTS Levels, MaxLen
VARIABLES scores, pos, best, amount, pts, cl
vars == <<scores, pos, best, amount, pts, cl>>
Init == /\ \E n \in 1..MaxLen : scores \in [1..n -> Levels \cup {NONE}]
        /\ pos = 0 /\ best = -10000 /\ amount = 0
        /\ pts \in [1..4 -> 0..4] /\ \A i \in 1..3 : pts[i] <= pts[i + 1]
        /\ cl \in (Parts(4, 2) \cup Parts(4, 3))
Look == /\ pos < Len(scores) /\ pos' = pos + 1 /\ UNCHANGED <<scores, pts, cl>>
        /\ IF scores[pos + 1] # NONE /\ scores[pos + 1] > best THEN best' = scores[pos + 1] /\ amount' = pos + 1 ELSE UNCHANGED <<best, amount>>
Next == Look
Spec == Init /\ [][Next]_vars
Known == {i \in DOMAIN scores : scores[i] # NONE}
BestOfSeen == \A i \in Known : i <= pos => scores[i] <= best
AmountIsBest == pos = Len(scores) /\ Known # {} => amount \in Known /\ scores[amount] = best /\ \A i \in Known : scores[i] <= scores[amount]
NoneWithout == Known = {} => amount = 0
(* scores lie in [-1, 1]; moving the own cluster onto one point and the others away approaches 1 *)
DM == [i \in 1..4 |-> [j \in 1..4 |-> Abs(pts[i] - pts[j])]]
InRange == \A i \in 1..4 : LET s == Score(DM, cl, i) IN s[1] = NONE \/ (s[2] > 0 /\ Abs(s[1]) <= s[2])
OneIffTight == \A i \in 1..4 : LET s == Score(DM, cl, i) IN (s[1] # NONE /\ s[1] = s[2]) <=> (ADen(cl, i) > 0 /\ ANum(DM, cl, i) = 0 /\ Other(DM, cl, i)[1] > 0)
PartsRight == Cardinality(Parts(4, 2)) = 7 /\ Cardinality(Parts(4, 3)) = 6 /\ \A p \in Parts(4, 3) : UNION Range(p) = 1..4 /\ Cardinality(Range(p)) = 3
ErrorZero == (Error([i \in 1..4 |-> <<pts[i]>>], cl) = 0) <=> \A c \in DOMAIN cl : Cardinality({pts[i] : i \in cl[c]}) = 1
(* first and last error lie on the line; a convex (decreasing, flattening) sequence has its elbow strictly inside *)
OnTheLine == Known = DOMAIN scores => Off(scores, 1) = 0 /\ Off(scores, Len(scores)) = 0
====
