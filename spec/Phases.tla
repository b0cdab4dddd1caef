---- MODULE Phases ----
(* Networks of phase oscillators (sync, syncnet, hsyncnet, syncpr) and the views of their dynamic.  Phases are 10^5 times radians, 0 <= phase <= one turn.     *)
(*                                                                                                                                                             *)
(* State: the phases of the oscillators, the connections and natural frequencies; one step moves every oscillator by its equation, computed from the same      *)
(* phases.  The synchronous ensembles are built by placing the oscillators one after another.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Tables

Turn == 628319
Half == 314159
Quarter == 157080
Norm(x) == x - Turn * (x \div Turn)
Signed(x) == LET m == Norm(x) IN IF m > Half THEN m - Turn ELSE m
SinQ(a) == LET k == (a + 500) \div 1000 d == a - 1000 * k s == SinTable[k + 1] IN s + (d * CosTable[k + 1] + 50000) \div 100000 - (((d * d) \div 2) * (s \div 100) + 50000000) \div 100000000
Sin(x) == LET m == Norm(x) IN IF m <= Quarter THEN SinQ(m) ELSE IF m <= Half THEN SinQ(Half - m) ELSE IF m <= Half + Quarter THEN -SinQ(m - Half) ELSE -SinQ(Turn - m)
Cos(x) == Sin(x + Quarter)
Circle(a, b) == LET d == Abs(a - b) IN Min2(d, Abs(Turn - d))                       \* distance on the circle
ExpOf(x) == LET k == x \div 5000 r == x - 5000 * k IN IF k >= 200 THEN 0 ELSE LET t == ExpTable[k + 1] IN t - (t * r) \div 100000 + (t * ((r * r) \div 20000)) \div 1000000      \* 10^4 exp(-x)
RDiv(a, b) == (2 * a + b) \div (2 * b)

(* ---- views of one state --------------------------------------------------------------------------------------------------------------------------------- *)
(* oscillators a and b surely / possibly synchronous when computed with rounding slack                                                                         *)
Close(ph, tol, a, b, slack) == Circle(ph[a], ph[b]) < tol + slack
(* ensembles (sequences of indexes from 1) as placing makes them: every oscillator goes to the first ensemble with an earlier synchronous member               *)
EnsemblesWhy(ph, tol, E, slack) ==
    LET n == Len(ph)
        At(i) == CHOOSE e \in DOMAIN E : i \in Range(E[e])
        Before(e, i) == {j \in Range(E[e]) : j < i}
    IN IF LenSum(E, Len(E)) # n \/ Covered(E) # 1..n THEN "ensembles are not a partition of the oscillators"
       ELSE IF \E e \in DOMAIN E : E[e] = <<>> \/ \E i \in 1..(Len(E[e]) - 1) : E[e][i] >= E[e][i + 1] THEN "oscillators of an ensemble are not in order"
       ELSE IF \E e \in 1..(Len(E) - 1) : E[e][1] >= E[e + 1][1] THEN "ensembles are not in order"
       ELSE IF \E i \in 1..n : Before(At(i), i) # {} /\ \A j \in Before(At(i), i) : ~Close(ph, tol, i, j, slack) THEN "oscillator is not synchronous with its ensemble"
       ELSE IF \E i \in 1..n : Before(At(i), i) = {} /\ \E j \in 1..(i - 1) : Close(ph, tol, i, j, -slack) THEN "synchronous oscillator is in an ensemble of its own"
       ELSE IF \E i \in 1..n : \E e \in 1..(At(i) - 1) : \E j \in Before(e, i) : Close(ph, tol, i, j, -slack) THEN "oscillator is not in the first ensemble it is synchronous with"
       ELSE ""
Correlation(ph, i, j) == Abs(Sin(ph[i] - ph[j]))
(* length of the mean vector, compared by squares *)
OrderOk(ph, r, slack) == LET n == Len(ph) c == SumSeq([i \in 1..n |-> Cos(ph[i])]) \div 100 s == SumSeq([i \in 1..n |-> Sin(ph[i])]) \div 100 v == (n * r) \div 100
                         IN r >= 0 /\ LET lo == Max2(0, v - n - slack) hi == v + n + slack IN lo * lo <= c * c + s * s /\ c * c + s * s <= hi * hi
LocalOrder(ph, nb) == LET m == SumSeq([i \in DOMAIN ph |-> Cardinality(nb[i])]) IN       \* 10^4
    IF m = 0 THEN 0 ELSE RDiv(SumSeq([i \in DOMAIN ph |-> SumOver(nb[i], [j \in nb[i] |-> ExpOf(Circle(ph[i], ph[j]))])]), m)
(* order with which a memorized pattern is recalled: as OrderOk, oscillators of the pattern's -1 turned by half                                               *)
Against(ph, pat) == [i \in DOMAIN ph |-> IF pat[i] > 0 THEN ph[i] ELSE Norm(ph[i] + Half)]

(* ---- equations --------------------------------------------------------------------------------------------------------------------------------------------- *)
(* a network N is a record: eq, n, nb (set of neighbours of each), w (weights by pair, scale ws), for syncpr e1, e2 (10^3), for colouring by synchronization      *)
(* neg (weight of neighbours, 10^2), pos (weight of the others), the divider red, and whether an oscillator pulls at itself during a step                                                                               *)
Coupling(N, ph, i, th) ==
    CASE N.eq = "sync" -> (N.weight * SumOver(N.nb[i], [j \in N.nb[i] |-> Sin(ph[j] - th)])) \div (100 * N.n)
      [] N.eq = "syncnet" -> SumOver(N.nb[i], [j \in N.nb[i] |-> (N.w[i][j] * Sin(ph[j] - th)) \div 10000]) \div Max2(1, Cardinality(N.nb[i]))
      [] N.eq = "gcolor" -> LET js == IF N.self THEN 1..N.n ELSE (1..N.n) \ {i} IN SumOver(js, [j \in js |-> (IF j \in N.nb[i] THEN N.neg ELSE N.pos) * Sin(ph[j] - th)]) \div (100 * N.red)
      [] N.eq = "syncpr" -> SumOver(N.nb[i], [j \in N.nb[i] |-> N.w[i][j] * Sin(ph[j] - th) + (N.e1 * Sin(2 * (ph[j] - th))) \div 1000 - (N.e2 * Sin(3 * (ph[j] - th))) \div 1000]) \div N.n
RungeKutta(N, ph, i, f, h) ==        \* h: 10^5 times the step; the others do not move during the step
    LET G(v) == f + Coupling(N, ph, i, v)
        D(a, b) == RDiv(a * (b \div 10), 10000)
        a == ph[i]  k1 == G(a)  k2 == G(a + D(k1, h \div 2))  k3 == G(a + D(k2, h \div 2))  k4 == G(a + D(k3, h))
    IN a + D((k1 + 2 * k2 + 2 * k3 + k4) \div 6, h)
(* connection weights of syncnet: distances (or squares of them) brought to 0..1 *)
Weights(d) == LET V == {d[p] : p \in DOMAIN d} lo == MinOf(V) hi == MaxOf(V) IN [p \in DOMAIN d |-> IF lo = hi THEN d[p] ELSE LET a == (d[p] - lo) * 100 b == hi - lo IN 100 * (a \div b) + RDiv((a % b) * 100, b)]
Hebb(pats, i, j) == SumSeq([p \in DOMAIN pats |-> pats[p][i] * pats[p][j]])

(* ---- transition system ------------------------------------------------------------------------------------------------------------------------------------- *)
CONSTANTS Modes, N, Grid, Tols, Steps
VARIABLES mode, ph, tol, groups, k, nb
vars == <<mode, ph, tol, groups, k, nb>>
Some == {RDiv(Turn * g, Grid) : g \in 0..(Grid - 1)}
Graphs == {[i \in 1..N |-> {j \in 1..N : {i, j} \in E}] : E \in SUBSET {{i, j} : <<i, j>> \in {<<a, b>> \in (1..N) \X (1..N) : a < b}}}
Init == /\ mode \in Modes /\ ph \in [1..N -> Some] /\ k = 1
        /\ CASE mode = "ensembles" -> tol \in Tols /\ groups = <<<<1>>>> /\ nb = <<>>
             [] mode = "sync" -> tol = 0 /\ groups = <<>> /\ nb \in Graphs
Place == /\ mode = "ensembles" /\ k < N
         /\ LET i == k + 1 fits == {e \in DOMAIN groups : \E j \in Range(groups[e]) : Close(ph, tol, i, j, 0)} IN
            IF fits = {} THEN groups' = Append(groups, <<i>>) ELSE groups' = [groups EXCEPT ![MinOf(fits)] = Append(@, i)]
         /\ k' = k + 1 /\ UNCHANGED <<mode, ph, tol, nb>>
Net == [eq |-> "sync", n |-> N, nb |-> nb, weight |-> 100]
Step == /\ mode = "sync" /\ k <= Steps
        /\ ph' = [i \in 1..N |-> Norm(ph[i] + Coupling(Net, ph, i, ph[i]))]
        /\ k' = k + 1 /\ UNCHANGED <<mode, tol, groups, nb>>
Next == Place \/ Step
Spec == Init /\ [][Next]_vars
Done == mode = "ensembles" /\ k = N
Placed == Done => EnsemblesWhy(ph, tol, groups, 0) = ""
(* rotating all phases changes nothing, except by rounding at the tolerance *)
Rotated == Done => \A r \in {Turn \div 5, Half} : EnsemblesWhy([i \in 1..N |-> Norm(ph[i] + r)], tol, groups, 2) = ""
(* groups of oscillators that are all near each other and far from the rest - what a converged network looks like - are the ensembles; otherwise placing may     *)
(* put oscillators of one phase apart (phases 0 0 2 1 2, tolerance 3/2: 1 joins the ensemble of 0, and the last 2 too)                                        *)
Settled == \A a, b, d \in 1..N : Close(ph, tol, a, b, 0) /\ Close(ph, tol, b, d, 0) => Close(ph, tol, a, d, 0)
Same == Done /\ Settled => \A i, j \in 1..N : Close(ph, tol, i, j, 0) <=> \E e \in DOMAIN groups : {i, j} \subseteq Range(groups[e])
Opposite == Done /\ (\A i, j \in 1..N : ph[i] = ph[j] \/ Circle(ph[i], ph[j]) >= tol) => Len(groups) = Cardinality(Range(ph))
Views == /\ \A i, j \in 1..N : Abs(Correlation(ph, i, j) - Correlation(ph, j, i)) <= 3 /\ Correlation(ph, i, i) = 0 /\ Correlation(ph, i, j) \in 0..100001
         /\ ((\A i \in 1..N : Circle(ph[i], ph[1]) <= 1) => OrderOk(ph, 100000, 4)) /\ ((\E i, j \in 1..N : Circle(ph[i], ph[j]) > Quarter \div 2) => ~OrderOk(ph, 100000, 0))
Orders == mode = "sync" => LET o == LocalOrder(ph, nb) IN o \in 0..10000 /\ ((\A i \in 1..N : \A j \in nb[i] : Circle(ph[i], ph[j]) <= 1) => o >= 9999 \/ \A i \in 1..N : nb[i] = {})
(* equal influences of oscillators on each other: the mean phase moves by no more than rounding; synchronized oscillators stay synchronized *)
Momentum == [][mode = "sync" => LET d == SumSeq([i \in 1..N |-> Signed(ph'[i] - ph[i])]) IN Abs(Signed(d)) <= 4 * N]_vars
Stays == [][mode = "sync" /\ (\A i \in 1..N : ph[i] = ph[1]) => \A i \in 1..N : ph'[i] = ph'[1] /\ Circle(ph'[1], ph[1]) <= 1]_vars
(* the whole network connected to all: local order never falls once all are within a quarter turn *)
Gathered == \E a \in 1..N : \A i \in 1..N : Norm(ph[i] - ph[a]) <= Quarter
Gathers == [][mode = "sync" /\ Gathered /\ (\A i \in 1..N : nb[i] = (1..N) \ {i}) => LocalOrder(ph', nb) >= LocalOrder(ph, nb) - 2]_vars
ASSUME \A x \in {0, 1000, 33333, 52360, 78540, 104720, 157080} : LET s == Sin(x) \div 10 c == Cos(x) \div 10 IN Abs(s * s + c * c - 100000000) <= 25000
ASSUME Abs(Sin(52360) - 50000) <= 2 /\ Abs(Cos(104720) - 50000) <= 2 /\ Sin(Half + 52360) < 0 /\ Abs(ExpOf(100000) - 3679) <= 1
====
