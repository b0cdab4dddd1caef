---- MODULE Rational ----
(* Points with rational coordinates [v |-> <<numerators>>, d |-> denominator], distances to lattice points, *)
(* comparisons by cross multiplication (everything stays below 2^31 for the bounds used by the drivers).     *)
EXTENDS Integers, Sequences, FiniteSets, Geom

RPoint(v, d) == [v |-> v, d |-> d]
Lattice(p) == RPoint(p, 1)
RNum(m, p, c) ==                               \* numerator of distance(p, c), p a lattice point
    LET df == [i \in DOMAIN p |-> Abs(c.d * p[i] - c.v[i])]
    IN  CASE m \in {"sq", "euclid"} -> SumSeq([i \in DOMAIN p |-> df[i] * df[i]])
          [] m = "manhattan" -> SumSeq(df)
          [] m = "chebyshev" -> MaxOf({df[i] : i \in DOMAIN df})
RDen(m, c) == IF m \in {"sq", "euclid"} THEN c.d * c.d ELSE c.d      \* for "euclid" numerator/denominator are those of the square
RLeq(m, p, a, b) == RNum(m, p, a) * RDen(m, b) <= RNum(m, p, b) * RDen(m, a)
Nearest(m, p, cs) == {c \in DOMAIN cs : \A e \in DOMAIN cs : RLeq(m, p, cs[c], cs[e])}
(* the same for all lattice points and all centres at once *)
Same(a, b) == \A i \in DOMAIN a.v : a.v[i] * b.d = b.v[i] * a.d

(* distance between two rational points compared with tn/td *)
CNum(m, a, b) ==
    LET df == [i \in DOMAIN a.v |-> Abs(a.v[i] * b.d - b.v[i] * a.d)]
    IN  CASE m \in {"sq", "euclid"} -> SumSeq([i \in DOMAIN df |-> df[i] * df[i]])
          [] m = "manhattan" -> SumSeq(df)
          [] m = "chebyshev" -> MaxOf({df[i] : i \in DOMAIN df})
CDen(m, a, b) == IF m \in {"sq", "euclid"} THEN a.d * b.d * a.d * b.d ELSE a.d * b.d
MovedMore(m, a, b, tn, td) == IF m = "euclid" THEN CNum(m, a, b) * td * td > tn * tn * CDen(m, a, b)
                                              ELSE CNum(m, a, b) * td > tn * CDen(m, a, b)
MovedLess(m, a, b, tn, td) == IF m = "euclid" THEN CNum(m, a, b) * td * td < tn * tn * CDen(m, a, b)
                                              ELSE CNum(m, a, b) * td < tn * CDen(m, a, b)

(* w, a fixed-point number (scale sc), denotes num/den within tol units *)
Fix(w, sc, num, den, tol) == Abs(w * den - num * sc) <= tol * den
FixPoint(ws, sc, c, tol) == Len(ws) = Len(c.v) /\ \A i \in DOMAIN ws : Fix(ws[i], sc, c.v[i], c.d, tol)

RECURSIVE IsqrtR(_, _, _)
IsqrtR(x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN IsqrtR(x, m, hi) ELSE IsqrtR(x, lo, m - 1)
Isqrt(x) == IsqrtR(x, 0, 46340)
Root100(num, den) == Isqrt((num * 10000) \div den)          \* 100 * sqrt(num/den), within 1

MeanOf(pts, S) == LET n == Cardinality(S) IN
    RPoint([k \in DOMAIN pts[1] |-> SumOver(S, [i \in S |-> pts[i][k]])], n)

(* k-th smallest (1-based) coordinate over S *)
Kth(pts, S, k, dim) == CHOOSE x \in {pts[i][dim] : i \in S} :
    /\ Cardinality({i \in S : pts[i][dim] < x}) < k
    /\ Cardinality({i \in S : pts[i][dim] <= x}) >= k
MedianOf(pts, S) == LET n == Cardinality(S) IN
    RPoint([d \in DOMAIN pts[1] |-> Kth(pts, S, (n + 1) \div 2, d) + Kth(pts, S, (n + 2) \div 2, d)], 2)

(* a system of distinct representatives for a sequence of sets *)
RECURSIVE SDR(_, _, _)
SDR(cand, i, used) == i > Len(cand) \/ \E c \in cand[i] \ used : SDR(cand, i + 1, used \cup {c})
====
