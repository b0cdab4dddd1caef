---- MODULE Seeding ----
(* Choosing initial centers.  Random: any object not chosen before.  K-Means++: the first object freely, then an object with positive  *)
(* distance to the chosen ones while there is one (a draw proportional to the distance can produce exactly those), otherwise any object *)
(* not chosen before.  With several candidates: the farthest of the drawn ones; "farthest": the farthest of all that are left.          *)
EXTENDS Integers, Sequences, FiniteSets, Geom

Shortest(D, chosen, i) == MinOf({D[c][i] : c \in Range(chosen)})
Free(n, chosen) == (1..n) \ Range(chosen)
Near(D, chosen) == [i \in DOMAIN D |-> Shortest(D, chosen, i)]
Drawable(D, chosen) == LET d == Near(D, chosen) P == {i \in DOMAIN D : d[i] > 0} IN IF P = {} THEN Free(Len(D), chosen) ELSE P
Farthest(D, chosen) == LET d == Near(D, chosen) f == Free(Len(D), chosen) IN {i \in f : \A j \in f : d[j] <= d[i]}
(* the object a draw u = a / m (0 <= a < m) selects: the first whose cumulated share exceeds it; 0 when all distances are zero *)
RECURSIVE DrawR(_, _, _, _, _)
DrawR(d, total, a, m, i) == IF i > Len(d) THEN 0 ELSE IF a * total < m * SumSeqR(d, i) THEN i ELSE DrawR(d, total, a, m, i + 1)
Draw(D, chosen, a, m) == LET d == Near(D, chosen) IN DrawR(d, SumSeq(d), a, m, 1)
BestOfDraws(D, chosen, as, m) ==
    LET d == Near(D, chosen) drawn == {Draw(D, chosen, as[k], m) : k \in DOMAIN as} \ {0}
    IN IF drawn = {} THEN Free(Len(D), chosen) ELSE {i \in drawn : \A j \in drawn : d[j] <= d[i]}

CONSTANTS MaxN, MaxCoord
VARIABLES pts, k, rule, chosen
vars == <<pts, k, rule, chosen>>
DMat == [i \in DOMAIN pts |-> [j \in DOMAIN pts |-> Abs(pts[i] - pts[j])]]
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> 0..MaxCoord] /\ \A i \in 1..(n-1) : pts[i] <= pts[i+1]
        /\ k \in 1..Len(pts) /\ rule \in {"random", "draw", "farthest"} /\ chosen = <<>>
Options == IF chosen = <<>> \/ rule = "random" THEN Free(Len(pts), chosen) ELSE IF rule = "draw" THEN Drawable(DMat, chosen) ELSE Farthest(DMat, chosen)
Choose == Len(chosen) < k /\ \E i \in Options : chosen' = Append(chosen, i) /\ UNCHANGED <<pts, k, rule>>
Next == Choose
Spec == Init /\ [][Next]_vars
NeverTwice == Distinct(chosen)
AlwaysPossible == Len(chosen) < k => Options # {}
(* coinciding centers only when all distinct points are taken *)
CoincideLate == rule # "random" => Cardinality({pts[i] : i \in Range(chosen)}) = Min2(Len(chosen), Cardinality(Range(pts)))
(* farthest-first traversal covers within twice the optimal radius *)
Radius(S) == MaxOf({MinOf({Abs(pts[i] - pts[j]) : j \in S}) : i \in DOMAIN pts})
TwiceOptimal == rule = "farthest" /\ Len(chosen) > 0 => \A S \in SUBSET DOMAIN pts : Cardinality(S) = Len(chosen) => Radius(Range(chosen)) <= 2 * Radius(S)
FarthestDrawable == rule = "farthest" /\ chosen # <<>> /\ Len(chosen) < Len(pts) => Farthest(DMat, chosen) \subseteq Drawable(DMat, chosen)
(* draws select drawable objects, and every drawable object by some draw *)
DrawsExact == rule = "draw" /\ chosen # <<>> /\ (\E i \in DOMAIN pts : Near(DMat, chosen)[i] > 0) =>
    {Draw(DMat, chosen, a, 101) : a \in 0..100} = Drawable(DMat, chosen)
====
