---- MODULE Fcm ----
(* Fuzzy C-Means.  Meaning of one iteration in fixed point (memberships 10^4, coordinates 10^3), for hyper-parameter "2", "3", "3/2": *)
(* memberships follow from the centers (w_j d_j^(1/(m-1)) is the same for all centers j, rows sum to one), centers are the means     *)
(* weighted by w^m.  The transition system does the same on exact rationals for m = 2.                                                *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational

FixDist(p, c) == SumSeq([k \in DOMAIN p |-> (1000 * p[k] - c[k]) * (1000 * p[k] - c[k])])     \* units 10^-6
DErr(d) == 2 + (2 * Isqrt(d)) \div 1000                                                        \* of d / 1000
Pow(m, w) == CASE m = "2" -> w [] m = "3" -> (w * w) \div 10000 [] m = "3/2" -> Isqrt(w * 10000)   \* w^(m-1), 10^4
PErr(m, w) == CASE m = "2" -> 1 [] m = "3" -> 3 [] m = "3/2" -> 2 + 5000 \div Max2(Isqrt(w * 10000), 50)
Weight(m, w) == (w * Pow(m, w)) \div 10000                                                     \* w^m
WErr(m, w) == 2 + (w * PErr(m, w)) \div 10000
RowWhy(m, p, cs, row) ==
    LET D == [c \in DOMAIN cs |-> FixDist(p, cs[c])] Z == {c \in DOMAIN cs : D[c] = 0} d == [c \in DOMAIN cs |-> D[c] \div 1000] IN
    IF \E c \in DOMAIN row : row[c] < 0 \/ row[c] > 10000 THEN "membership outside [0, 1]"
    ELSE IF Len(row) # Len(cs) \/ Abs(SumSeq(row) - 10000) > Len(row) THEN "memberships of an object do not sum to one"
    ELSE IF Z # {} THEN (IF \E c \in DOMAIN row \ Z : D[c] > 200 /\ row[c] > 200 THEN "an object that coincides with a center belongs to another one" ELSE "")
    ELSE IF \E i, j \in DOMAIN row : i < j /\
              Abs(Pow(m, row[i]) * d[i] - Pow(m, row[j]) * d[j]) > Pow(m, row[i]) * DErr(D[i]) + Pow(m, row[j]) * DErr(D[j]) + PErr(m, row[i]) * (d[i] + 1) + PErr(m, row[j]) * (d[j] + 1)
         THEN "memberships do not follow from the distances to the centers"
    ELSE ""
(* known deviation of the C++ core: full membership in the coinciding centers, and a distribution over the others besides *)
RowDeviates(m, p, cs, row) ==
    Len(row) = Len(cs) /\ \E Z \in SUBSET {c \in DOMAIN cs : FixDist(p, cs[c]) = 0 /\ row[c] = 10000} :
        LET rest == SelectSeq([c \in DOMAIN cs |-> c], LAMBDA c : c \notin Z) IN
        Z # {} /\ (rest = <<>> \/ RowWhy(m, p, [k \in DOMAIN rest |-> cs[rest[k]]], [k \in DOMAIN rest |-> row[rest[k]]]) = "")
CenterWhy(m, P, W, c, old, new) ==       \* center c from all membership rows
    LET ws == [i \in DOMAIN P |-> Weight(m, W[i][c])] s == SumSeq(ws) IN
    IF s = 0 THEN ""
    ELSE IF \E k \in DOMAIN new : Abs(1000 * SumSeq([i \in DOMAIN P |-> ws[i] * P[i][k]]) - s * new[k]) >
              s + SumSeq([i \in DOMAIN P |-> WErr(m, W[i][c]) * Abs(1000 * P[i][k] - new[k])])
         THEN "center is not the weighted mean of the objects"
    ELSE ""
Moved(a, b) == MaxOf({Isqrt(SumSeq([k \in DOMAIN a[c] |-> (a[c][k] - b[c][k]) * (a[c][k] - b[c][k])])) : c \in DOMAIN a})   \* units 10^-3

(* ---- transition system: one exact update for m = 2 ---------------------------------------------------- *)
CONSTANTS MaxN, MaxCoord
VARIABLES pts, cs, mem, done
vars == <<pts, cs, mem, done>>
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> 0..MaxCoord] /\ \A i \in 1..(n-1) : pts[i] <= pts[i+1]
        /\ \E k \in 1..3 : cs \in [1..k -> 0..MaxCoord]
        /\ mem = <<>> /\ done = FALSE
RECURSIVE Prod(_, _)
Prod(f, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] * Prod(f, S \ {x})
(* membership of object i in center j as <<numerator, denominator>>: 1/d_j normalised *)
Row(i) == LET d == [c \in DOMAIN cs |-> (pts[i] - cs[c]) * (pts[i] - cs[c])] Z == {c \in DOMAIN cs : d[c] = 0}
              others == [c \in DOMAIN cs |-> Prod(d, DOMAIN cs \ {c})] s == SumOver(DOMAIN cs, others) IN
          [c \in DOMAIN cs |-> IF Z # {} THEN (IF c \in Z THEN <<1, Cardinality(Z)>> ELSE <<0, 1>>) ELSE <<others[c], s>>]
Update == ~done /\ done' = TRUE /\ mem' = [i \in DOMAIN pts |-> Row(i)] /\ UNCHANGED <<pts, cs>>
Next == Update
Spec == Init /\ [][Next]_vars
ToFix(r) == (r[1] * 10000) \div r[2]
SumsToOne == done => \A i \in DOMAIN pts : Abs(SumSeq([c \in DOMAIN cs |-> ToFix(mem[i][c])]) - 10000) <= Len(cs)
Comparable(i, a, b) == Abs(pts[i] - cs[a]) < Abs(pts[i] - cs[b]) /\ (pts[i] = cs[a] \/ ~\E z \in DOMAIN cs : pts[i] = cs[z])
NearerMore == done => \A i \in DOMAIN pts : \A a, b \in DOMAIN cs : Comparable(i, a, b) => mem[i][a][1] * mem[i][b][2] > mem[i][b][1] * mem[i][a][2]
(* the fixed-point reading used on recorded executions accepts the exact memberships *)
ReadingSound == done => \A i \in DOMAIN pts : RowWhy("2", <<pts[i]>>, [c \in DOMAIN cs |-> <<1000 * cs[c]>>], [c \in DOMAIN cs |-> ToFix(mem[i][c])]) = ""
(* ... and no row in which the memberships of two unequally distant centers are exchanged *)
Swap(r, a, b) == [r EXCEPT ![a] = r[b], ![b] = r[a]]
ReadingSharp == done => \A i \in DOMAIN pts : \A a, b \in DOMAIN cs : Comparable(i, a, b) =>
    RowWhy("2", <<pts[i]>>, [c \in DOMAIN cs |-> <<1000 * cs[c]>>], Swap([c \in DOMAIN cs |-> ToFix(mem[i][c])], a, b)) # ""
====
