---- MODULE Splitting ----
(* X-Means and G-Means: Lloyd iterations to a fixpoint, then every cluster may be replaced by the two halves of a 2-means fixpoint of it,   *)
(* as long as the maximum number of clusters allows; repeated until no cluster is split.  Whether a cluster is split is decided by a        *)
(* criterion: BIC, MNDL (X-Means) or the Anderson-Darling test of normality along the axis of the halves (G-Means).  Criteria are evaluated *)
(* in fixed point; "maybe" within the rounding margin.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational, Tables

L == INSTANCE Lloyd WITH MaxN <- 0, MaxCoord <- 0, MaxK <- 0, Kind <- "mean", Metric <- "sq", pts <- <<>>, cs <- <<>>, cl <- <<>>, steps <- 0, done <- FALSE

Means(P, cl) == [k \in DOMAIN cl |-> MeanOf(P, cl[k])]
Drop(cl) == SelectSeq(cl, LAMBDA S : S # {})
(* all outcomes of one assignment of the objects S to the centers cs: exact ties either way, coincident objects together, the first of coincident centers *)
RECURSIVE Assigns(_, _, _, _)
Assigns(near, groups, k, cs) == IF groups = {} THEN {[c \in 1..k |-> {}]}
    ELSE LET g == CHOOSE g \in groups : TRUE
             cand == {c \in near[CHOOSE i \in g : TRUE] : ~ \E e \in 1..(c - 1) : Same(cs[e], cs[c])}
         IN {[a EXCEPT ![c] = @ \cup g] : a \in Assigns(near, groups \ {g}, k, cs), c \in cand}
Together(P, S) == {{j \in S : P[j] = P[i]} : i \in S}
SameAll(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k], b[k])
(* all fixpoints (sequences of non-empty sets) the iteration can end in *)
RECURSIVE Ends(_, _, _)
Ends(P, S, cs) ==
    LET near == [i \in S |-> Nearest("sq", P[i], cs)] IN
    UNION { LET cl == Drop(a) ncs == Means(P, cl) IN IF SameAll(cs, ncs) THEN {cl} ELSE Ends(P, S, ncs) : a \in Assigns(near, Together(P, S), Len(cs), cs) }
(* the 2-means fixpoints of a cluster, reached from two different points of it *)
Halves(P, S) == {e \in UNION {Ends(P, S, <<Lattice(P[p[1]]), Lattice(P[p[2]])>>) : p \in LET f == {MinOf(g) : g \in Together(P, S)} IN {q \in f \X f : q[1] < q[2]}} : Len(e) = 2}

Scatter(P, S) == LET n == Cardinality(S) IN      \* n times the squared error
    SumSeq([d \in DOMAIN P[1] |-> LET s == SumOver(S, [i \in S |-> P[i][d]]) IN n * SumOver(S, [i \in S |-> P[i][d] * P[i][d]]) - s * s])
(* squared error of several clusters as <<num, den>> *)
RECURSIVE ErrorR(_, _, _)
ErrorR(P, cl, k) == IF k = 0 THEN <<0, 1>> ELSE LET r == ErrorR(P, cl, k - 1) n == Cardinality(cl[k]) IN <<r[1] * n + Scatter(P, cl[k]) * r[2], r[2] * n>>
Error(P, cl) == ErrorR(P, cl, Len(cl))
Count(cl) == SumSeq([k \in DOMAIN cl |-> Cardinality(cl[k])])

(* ---- criteria: does splitting cluster S into h = <<A, B>> improve?  "yes", "no", "maybe" ------------------------------------ *)
Bic(P, cl) ==                                     \* 10^4 times; only when N > K and the error is positive
    LET K == Len(cl) N == Count(cl) d == Len(P[1]) e == Error(P, cl)
        lns == Ln(e[1]) - Ln(e[2]) - Ln(N - K)                                            \* ln of the variance
        p == K * (d + 1)
        one(n) == n * Ln(n) - n * Ln(N) - (n * 18379) \div 2 - (n * d * lns) \div 2 - (n - K) * 5000 - (p * Ln(N)) \div 2
    IN SumSeq([k \in DOMAIN cl |-> one(Cardinality(cl[k]))])
BicClass(P, S, h) ==
    IF Cardinality(S) = 2 \/ Error(P, h)[1] = 0 THEN "yes"
    ELSE LET d == Bic(P, h) - Bic(P, <<S>>) IN IF d > 500 THEN "yes" ELSE IF d < -500 THEN "no" ELSE "maybe"

(* 10^3 times the description length, alpha and beta in percent *)
Mndl(P, cl, al, be) ==
    LET K == Len(cl) N == Count(cl) e == Error(P, cl)
        s2 == (1000 * e[1]) \div (e[2] * (N - K))                                         \* variance
        W == SumSeq([k \in DOMAIN cl |-> LET n == Cardinality(cl[k]) IN (1000 * Scatter(P, cl[k])) \div (n * n)])
        kw == ((N - K) * s2) \div N
        as2 == (((al * al) \div 10) * s2) \div (1000 * N)
        in == as2 + W - kw \div 2
        \* 2 alpha sqrt(s2 / N) sqrt(in), the roots with two extra digits
        r1 == Isqrt((s2 * 1000) \div N)
        r2 == Isqrt(in * 1000)
        ks == (((2 * al * r1) \div 100) * r2) \div 1000
        rk == IF K = 1 THEN 1414 ELSE Isqrt(2000000 * K)                                   \* 10^3 sqrt(2 K)
    IN (s2 * K) \div N + W - kw + 2 * as2 + ks + (((s2 * be) \div 100) * rk) \div (1000 * N)
MndlClass(P, S, h, al, be) ==
    IF Cardinality(S) = 2 THEN "no" ELSE IF Error(P, h)[1] = 0 THEN "yes"
    ELSE LET a == Mndl(P, <<S>>, al, be) b == Mndl(P, h, al, be) m == 20 + (a + b) \div 100 IN IF b < a - m THEN "yes" ELSE IF b > a + m THEN "no" ELSE "maybe"

(* direction of the axis between the two means, as integers *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Axis(P, h) == LET a == Cardinality(h[1]) b == Cardinality(h[2])
                  v == [d \in DOMAIN P[1] |-> b * SumOver(h[1], [i \in h[1] |-> P[i][d]]) - a * SumOver(h[2], [i \in h[2] |-> P[i][d]])]
                  g == IF Len(v) = 1 THEN Abs(v[1]) ELSE Gcd(Abs(v[1]), Abs(v[2])) IN [d \in DOMAIN v |-> v[d] \div g]
RECURSIVE SortedR(_, _)
SortedR(S, f) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : f[i] <= f[j] IN <<f[i]>> \o SortedR(S \ {i}, f)
(* standardised projections in thousandths, ascending *)
Standard(P, S, h) ==
    LET n == Cardinality(S) v == Axis(P, h)
        t == [i \in S |-> SumSeq([d \in DOMAIN v |-> v[d] * P[i][d]])]
        s == SumOver(S, t)
        u == [i \in S |-> n * t[i] - s]
        q == SumOver(S, [i \in S |-> u[i] * u[i]])
        r == IF q \div (n - 1) <= 200000 THEN Isqrt((q * 100) \div (n - 1)) * 10 ELSE IF q \div (n - 1) <= 20000000 THEN Isqrt((q \div (n - 1)) * 100) * 10 ELSE Isqrt(q \div (n - 1)) * 100 \* 100 * deviation
        f == [i \in S |-> IF Abs(u[i]) < 20000 THEN (100000 * u[i]) \div r ELSE (1000 * u[i]) \div (r \div 100)]
    IN SortedR(S, f)
Ad(y) == LET n == Len(y) IN -10000 * n - SumSeq([i \in DOMAIN y |-> ((2 * i - 1) * (LnPhi(y[i]) + LnPhi(-y[n + 1 - i]))) \div n])      \* 10^4 A^2
Critical(n) == (10920 * n * n) \div (n * n + 4 * n - 25)                                  \* 10^4 times; n >= 4
AdClass(P, S, h) ==
    LET n == Cardinality(S) IN
    IF n <= 3 THEN "yes"                          \* the critical value is negative
    ELSE LET a == Ad(Standard(P, S, h)) c == Critical(n) IN IF a > c + 500 THEN "yes" ELSE IF a < c - 500 THEN "no" ELSE "maybe"

(* ---- transition system: one dimension, an arbitrary criterion ---------------------------------------------------------------- *)
CONSTANTS MaxN, MaxCoord, MaxK
VARIABLES pts, kmax, cs, cl, phase
vars == <<pts, kmax, cs, cl, phase>>
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ \A i \in 1..(n - 1) : pts[i][1] <= pts[i + 1][1]
        /\ kmax \in 1..MaxK
        /\ \E k \in 1..kmax : cs \in [1..k -> {Lattice(pts[i]) : i \in DOMAIN pts}]
        /\ cl = <<>> /\ phase = "improve"
Improve == /\ phase = "improve"
           /\ \E a \in Assigns([i \in DOMAIN pts |-> Nearest("sq", pts[i], cs)], Together(pts, DOMAIN pts), Len(cs), cs) :
                /\ cl' = Drop(a) /\ cs' = Means(pts, cl')
                /\ phase' = IF SameAll(cs, cs') THEN "split" ELSE "improve"
           /\ UNCHANGED <<pts, kmax>>
(* which: the clusters to split *)
RECURSIVE NewCenters(_, _, _)
NewCenters(f, which, k) == IF k > Len(cl) THEN <<>> ELSE (IF k \in which THEN Means(pts, f[k]) ELSE <<cs[k]>>) \o NewCenters(f, which, k + 1)
Can == {k \in DOMAIN cl : Halves(pts, cl[k]) # {}}
Split == /\ phase = "split" /\ phase' = "improve"
         /\ \E which \in SUBSET Can : /\ which # {} /\ Cardinality(which) <= kmax - Len(cl)
                                      /\ \E f \in [which -> UNION {Halves(pts, cl[k]) : k \in which}] : (\A k \in which : f[k] \in Halves(pts, cl[k])) /\ cs' = NewCenters(f, which, 1)
         /\ UNCHANGED <<pts, kmax, cl>>
Stop == phase = "split" /\ phase' = "done" /\ UNCHANGED <<pts, kmax, cs, cl>>
Next == Improve \/ Split \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* what the trace specification relies on *)
AtMost == Len(cs) <= kmax /\ Len(cl) <= kmax
Fixpoint == phase \in {"split", "done"} => L!AssignWhy("sq", pts, cs, cl) = "" /\ SameAll(cs, Means(pts, cl))
HalvesAreHalves == phase = "split" => \A k \in DOMAIN cl : (Halves(pts, cl[k]) = {}) <=> Cardinality({pts[i] : i \in cl[k]}) = 1
Less(a, b) == a[1] * b[2] < b[1] * a[2]
SplitReduces == [][phase = "split" /\ phase' = "improve" => \A k \in Can : \A h \in Halves(pts, cl[k]) : Less(Error(pts, h), Error(pts, <<cl[k]>>))]_vars
ImproveKeeps == [][phase = "improve" /\ cl # <<>> /\ Len(cl) = Len(cs) => ~Less(Error(pts, cl), Error(pts, cl'))]_vars
Stops == <>(phase = "done")
(* properties of the criteria: points at two places belong to two clusters by BIC; a pair is never split by MNDL; no split of four by the normality test *)
Criteria == phase = "split" => \A k \in DOMAIN cl : \A h \in Halves(pts, cl[k]) :
    /\ (Cardinality({pts[i] : i \in cl[k]}) = 2 => BicClass(pts, cl[k], h) = "yes")
    /\ (Cardinality(cl[k]) = 2 => MndlClass(pts, cl[k], h, 90, 90) = "no")
    /\ (Cardinality(cl[k]) = 4 => AdClass(pts, cl[k], h) = "no")
    /\ (Cardinality(cl[k]) > 2 => Abs(SumSeq(Standard(pts, cl[k], h))) <= 5 * Len(pts))
====
