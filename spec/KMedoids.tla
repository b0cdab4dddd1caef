---- MODULE KMedoids ----
(* K-Medoids by PAM on a matrix D of integer distances.  Objects at distance zero of each other are interchangeable: a medoid is      *)
(* represented by the least object of its class, a configuration by the set of classes of its medoids and the number of spare medoids *)
(* (medoids that coincide with another one and own no object).                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, Geom

Class(D, i) == MinOf({j \in DOMAIN D : D[i][j] = 0})
Classes(D, S) == {Class(D, i) : i \in S}
Deviation(D, M) == SumOver(DOMAIN D, [i \in DOMAIN D |-> MinOf({D[i][m] : m \in M})])
Swaps(D, M, spare) ==
    LET X == {Class(D, i) : i \in DOMAIN D} \ M IN
    IF spare > 0 THEN {M \cup {x} : x \in X} \cup {(M \ {m}) \cup {x} : m \in M, x \in X} ELSE {(M \ {m}) \cup {x} : m \in M, x \in X}
Best(D, M, spare) == LET S == Swaps(D, M, spare) IN IF S = {} THEN -1 ELSE MinOf({Deviation(D, R) : R \in S})
Improves(D, M, spare, slack) == LET b == Best(D, M, spare) IN b >= 0 /\ b < Deviation(D, M) + slack
NearestMedoid(D, M, i) == {m \in M : \A k \in M : D[i][m] <= D[i][k]}
(* greedy choice of the initial medoids *)
BuildWhy(D, ms, slack) ==
    IF \E i \in DOMAIN ms : ms[i] \notin DOMAIN D THEN "medoid is not an object"
    ELSE IF ~Distinct(ms) THEN "an object is chosen twice"
    ELSE IF \E i \in DOMAIN ms :
              LET S == {ms[j] : j \in 1..(i-1)} d == Deviation(D, S \cup {ms[i]}) IN \E x \in DOMAIN D \ S : Deviation(D, S \cup {x}) + slack < d
         THEN "the added medoid does not minimise the deviation"
    ELSE ""

(* ---- transition system ------------------------------------------------------------------------------------ *)
CONSTANTS MaxN, MaxCoord, MaxTol
VARIABLES pts, med, spare, it, itermax, tol, stopped
vars == <<pts, med, spare, it, itermax, tol, stopped>>
D0 == [i \in DOMAIN pts |-> [j \in DOMAIN pts |-> Abs(pts[i] - pts[j])]]
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> 0..MaxCoord] /\ \A i \in 1..(n-1) : pts[i] <= pts[i+1]
        /\ \E S \in SUBSET DOMAIN pts : S # {} /\ med = Classes(D0, S) /\ spare = Cardinality(S) - Cardinality(med)
        /\ it = 0 /\ itermax \in 0..3 /\ tol \in 0..MaxTol /\ stopped = FALSE
Iterate == /\ ~stopped /\ it < itermax /\ it' = it + 1
           /\ IF Improves(D0, med, spare, 0)
              THEN \E R \in Swaps(D0, med, spare) :
                     /\ Deviation(D0, R) = Best(D0, med, spare)
                     /\ med' = R /\ spare' = spare - (Cardinality(R) - Cardinality(med))
                     /\ stopped' = (Deviation(D0, med) - Deviation(D0, R) <= tol)
              ELSE UNCHANGED <<med, spare>> /\ stopped' = TRUE
           /\ UNCHANGED <<pts, itermax, tol>>
Next == Iterate
Spec == Init /\ [][Next]_vars
TypeOK == med # {} /\ med \subseteq DOMAIN pts /\ spare >= 0 /\ it <= itermax
Descends == [][Deviation(D0, med') <= Deviation(D0, med)]_vars
LocalOptimum == (stopped /\ tol = 0) => ~Improves(D0, med, spare, 0)
====
