---- MODULE Cure ----
(* CURE: every cluster is described by scattered objects shrunk toward its mean; the two clusters with the smallest      *)
(* distance between representatives are merged until K remain.  Compression is cn/cd, points are lattice points.          *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational

(* squared distance of two rational points in units of 1/1000, rounded down *)
Milli(a, b) == LET n == CNum("sq", a, b) d == CDen("sq", a, b) IN (n \div d) * 1000 + ((n % d) * 1000) \div d
RepDist(A, B) == MinOf({Milli(x, y) : x \in A, y \in B})
Shrunk(P, M, i, cn, cd) ==             \* object i shrunk toward the mean of M
    LET n == Cardinality(M) s == [k \in DOMAIN P[1] |-> SumOver(M, [j \in M |-> P[j][k]])] IN
    RPoint([k \in DOMAIN P[1] |-> P[i][k] * n * (cd - cn) + cn * s[k]], n * cd)
(* scattered objects: first one farthest from the mean, then farthest from those chosen; sets of distinct coordinates *)
Farthest(P, M, S) == IF S = {} THEN LET m == MeanOf(P, M) D == [i \in M |-> RNum("sq", P[i], m)] IN {i \in M : \A j \in M : D[j] <= D[i]}
                     ELSE LET D == [i \in M |-> MinOf({Sq(P[i], P[j]) : j \in S})] IN {i \in M : \A j \in M : D[j] <= D[i]}
RECURSIVE Scatter(_, _, _, _)
Scatter(P, M, S, r) == IF r = 0 THEN {S}
                       ELSE LET F == Farthest(P, M, S) IN
                            IF S # {} /\ \E i \in F : \E j \in S : P[i] = P[j] THEN {S}      \* every object coincides with a chosen one
                            ELSE UNION {Scatter(P, M, S \cup {i}, r - 1) : i \in F}
ScatterPts(P, M, r) == {{P[i] : i \in S} : S \in Scatter(P, M, {}, r)}
RepSets(P, M, r, cn, cd) == IF Cardinality(M) = 1 THEN {{Lattice(P[i]) : i \in M}}
                            ELSE {{Shrunk(P, M, CHOOSE i \in M : P[i] = p, cn, cd) : p \in S} : S \in ScatterPts(P, M, r)}

Pairs(Q) == {p \in SUBSET Q : Cardinality(p) = 2}
PairDist(reps, p) == LET X == CHOOSE X \in p : TRUE Y == CHOOSE Y \in p : Y # X IN RepDist(reps[X], reps[Y])
Closest(reps, slack) == LET ps == Pairs(DOMAIN reps) D == [p \in ps |-> PairDist(reps, p)] m == MinOf({D[p] : p \in ps}) IN {p \in ps : D[p] <= m + slack}

(* ---- transition system ------------------------------------------------------------------------------------ *)
CONSTANTS MaxN, MaxCoord, MaxR, Cd
VARIABLES pts, r, cn, reps, k
vars == <<pts, r, cn, reps, k>>
N == Len(pts)
Init == /\ \E n \in 1..MaxN : /\ pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ \A i \in 1..(n-1) : pts[i][1] <= pts[i+1][1]
                              /\ k \in 1..n
        /\ reps = [X \in {{i} : i \in 1..N} |-> {Lattice(pts[i]) : i \in X}]
        /\ r \in 1..MaxR /\ cn \in 0..Cd
Merge == /\ Cardinality(DOMAIN reps) > k
         /\ \E p \in Closest(reps, 0) : \E R \in RepSets(pts, UNION p, r, cn, Cd) :
              reps' = [X \in (DOMAIN reps \ p) \cup {UNION p} |-> IF X = UNION p THEN R ELSE reps[X]]
         /\ UNCHANGED <<pts, r, cn, k>>
Next == Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Q == DOMAIN reps
TypeOK == UNION Q = 1..N /\ {} \notin Q /\ \A X, Y \in Q : X # Y => X \cap Y = {}
Few == \A X \in Q : Cardinality(reps[X]) \in 1..r
(* representatives stay inside the range of their cluster *)
Hull == \A X \in Q : \A c \in reps[X] : /\ c.v[1] >= c.d * MinOf({pts[i][1] : i \in X}) /\ c.v[1] <= c.d * MaxOf({pts[i][1] : i \in X})
Ends == <>(Cardinality(Q) = k)
====
