---- MODULE Utils ----
(* Reservoir sampling, search in an ordered list, list arithmetic, corners, distances between clusters, graph descriptions.        *)
EXTENDS Integers, Sequences, FiniteSets, Geom

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted(S \ {m})
(* ---- reservoir: the stream is 1..n, the sample holds positions -------------------------------------------------------------- *)
CONSTANTS MaxStream, MaxSample
VARIABLES n, k, pos, sample, lo, hi, list, target
vars == <<n, k, pos, sample, lo, hi, list, target>>
SortedLists == UNION {{s \in [1..m -> 0..2] : \A i \in 1..(m - 1) : s[i] <= s[i + 1]} : m \in 1..5}
Init == /\ n \in 1..MaxStream /\ k \in 1..MaxSample /\ k <= n
        /\ pos = k /\ sample = [i \in 1..k |-> i]
        /\ list \in SortedLists /\ target \in Range(list) /\ lo = 1 /\ hi = Len(list) /\ list[hi] = target
Take == /\ pos < n /\ pos' = pos + 1
        /\ \E m \in 1..(pos + 1) : sample' = IF m <= k THEN [sample EXCEPT ![m] = pos + 1] ELSE sample
        /\ UNCHANGED <<n, k, lo, hi, list, target>>
Halve == /\ lo < hi /\ LET m == (lo + hi) \div 2 IN IF list[m] < target THEN lo' = m + 1 /\ hi' = hi ELSE lo' = lo /\ hi' = m
         /\ UNCHANGED <<n, k, pos, sample, list, target>>
Next == Take \/ Halve
Spec == Init /\ [][Next]_vars
Leftmost(s, r) == CHOOSE i \in DOMAIN s : s[i] >= s[r] /\ \A j \in 1..(i - 1) : s[j] < s[r]          \* s ordered
DistinctPositions == Distinct(sample) /\ Len(sample) = k /\ Range(sample) \subseteq 1..pos
AllWhenShort == n = k => Range(sample) = 1..n
SearchBracketed == lo <= Leftmost(list, Len(list)) /\ Leftmost(list, Len(list)) <= hi
SearchFound == lo = hi => lo = Leftmost(list, Len(list))
(* every set of positions is equally likely: numbers of draw sequences leading to it (checked on the small bound) *)
RECURSIVE Ways(_, _, _)
Ways(p, kk, S) ==        \* S: set of kk positions out of 1..p; sequences of draws that end with S (slots do not matter: each slot equally likely)
    IF p = kk THEN (IF S = 1..p THEN 1 ELSE 0)
    ELSE IF p \in S THEN SumOver((1..(p - 1)) \ S, [x \in (1..(p - 1)) \ S |-> Ways(p - 1, kk, (S \ {p}) \cup {x})])
    ELSE Ways(p - 1, kk, S) * (p - kk)
Uniform == pos = n /\ n <= 5 => \A S, R \in SUBSET (1..n) : Cardinality(S) = k /\ Cardinality(R) = k => Ways(n, k, S) = Ways(n, k, R)

(* ---- list arithmetic ------------------------------------------------------------------------------------------------------------ *)
MapTwo(op, a, b) == [i \in DOMAIN a |-> CASE op = "add" -> a[i] + b[i] [] op = "sub" -> a[i] - b[i] [] op = "mul" -> a[i] * b[i]]
MapNum(op, a, x) == [i \in DOMAIN a |-> CASE op = "addn" -> a[i] + x [] op = "subn" -> a[i] - x [] op = "muln" -> a[i] * x]
LinearSum(ps) == [d \in DOMAIN ps[1] |-> SumSeq([i \in DOMAIN ps |-> ps[i][d]])]
SquareSum(ps) == SumSeq([i \in DOMAIN ps |-> SumSeq([d \in DOMAIN ps[i] |-> ps[i][d] * ps[i][d]])])
Low(ps, idx) == [d \in DOMAIN ps[1] |-> MinOf({ps[i][d] : i \in idx})]
High(ps, idx) == [d \in DOMAIN ps[1] |-> MaxOf({ps[i][d] : i \in idx})]
(* ---- distances between clusters of points, as squares or fractions <<num, den>> ------------------------------------------------------ *)
InterSq(a, b) == <<SumSeq([i \in DOMAIN a |-> SumSeq([j \in DOMAIN b |-> Sq(a[i], b[j])])]), Len(a) * Len(b)>>
IntraSq(a, b) == LET c == a \o b IN <<SumSeq([i \in DOMAIN c |-> SumSeq([j \in DOMAIN c |-> Sq(c[i], c[j])])]), Len(c) * (Len(c) - 1)>>
(* sum of squared deviations from the mean, times the amount *)
Dev(a) == Len(a) * SquareSum(a) - LET s == LinearSum(a) IN SumSeq([d \in DOMAIN s |-> s[d] * s[d]])
VarianceInc(a, b) == LET c == a \o b IN <<Dev(c) * Len(a) * Len(b) - Dev(a) * Len(b) * Len(c) - Dev(b) * Len(a) * Len(c), Len(a) * Len(b) * Len(c)>>
(* mean distance to the num nearest others, objects on a line *)
RECURSIVE SumLeast(_, _)
SumLeast(s, m) == IF m = 0 THEN 0 ELSE LET i == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j] IN s[i] + SumLeast([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]], m - 1)
NearestMean(x, num) == LET m == Len(x) IN
    <<SumSeq([i \in 1..m |-> SumLeast([j \in 1..(m - 1) |-> Abs(x[i] - x[IF j < i THEN j ELSE j + 1])], num)]), num * m>>
(* ---- brightness of a colour, 10^4 ---------------------------------------------------------------------------------------------------- *)
Luminosity(p) == 2989 * p[1] + 5870 * p[2] + 1140 * p[3]
ASSUME \A p \in {<<0, 0, 0>>, <<255, 255, 255>>, <<1, 2, 3>>} : Luminosity(p) \in 0..2550000 /\ \A i \in 1..3 : p[i] < 255 => Luminosity([p EXCEPT ![i] = @ + 1]) > Luminosity(p)
(* ---- oscillations: complete excursions to the threshold or above that begin and end inside the signal (and follow a rise) ----------- *)
Rises(y, th) == {t \in 2..Len(y) : y[t] >= th /\ y[t - 1] < th}
Falls(y, th) == {t \in 2..Len(y) : y[t] < th /\ y[t - 1] >= th}
Oscillations(y, th) == Cardinality({t \in Falls(y, th) : \E r \in Rises(y, th) : r < t})
====
