---- MODULE Rock ----
(* ROCK: neighbours are objects closer than the radius; merge a pair of clusters with the largest goodness       *)
(* links / ((n+m)^f - n^f - m^f), as long as more than K clusters remain and some pair shares a link.              *)
(* W[s] is s^f as an integer in units of 1/sc (sc = 1 when f is an integer: then everything is exact).              *)
EXTENDS Integers, Sequences, FiniteSets, Geom

Adj(P, rn, rd) == [i \in DOMAIN P |-> {j \in DOMAIN P : j # i /\ Sq(P[i], P[j]) * rd * rd < rn * rn}]
Links(A, X, Y) == SumOver(X, [i \in X |-> Cardinality(A[i] \cap Y)])
Expected(W, X, Y) == W[Cardinality(X) + Cardinality(Y)] - W[Cardinality(X)] - W[Cardinality(Y)]
(* goodness of <<links, expected>> pairs, one unit of rounding in each of the three powers when not exact *)
Better(g, h, slack) == g[1] * (h[2] - slack) > h[1] * (g[2] + slack)
Good(A, W, p) == LET X == CHOOSE X \in p : TRUE Y == CHOOSE Y \in p : Y # X IN <<Links(A, X, Y), Expected(W, X, Y)>>
Pairs(Q) == {p \in SUBSET Q : Cardinality(p) = 2}
Best(A, W, Q, slack) == LET G == [p \in Pairs(Q) |-> Good(A, W, p)] IN
                        {p \in DOMAIN G : G[p][1] > 0 /\ \A q \in DOMAIN G : ~Better(G[q], G[p], slack)}
Linked(A, Q) == \E p \in Pairs(Q) : LET X == CHOOSE X \in p : TRUE Y == CHOOSE Y \in p : Y # X IN Links(A, X, Y) > 0
Merged(Q, p) == (Q \ p) \cup {UNION p}
StepWhy(A, W, slack, Q, R) ==
    IF R = Q THEN (IF Linked(A, Q) THEN "stopped although two clusters share a link" ELSE "")
    ELSE LET p == Q \ R IN
         IF Cardinality(p) # 2 \/ R # Merged(Q, p) THEN "one cluster less does not merge exactly two clusters"
         ELSE IF p \notin Best(A, W, Q, slack) THEN "the merged pair has not the largest goodness"
         ELSE ""

(* ---- transition system (threshold 1/3: f = 2, goodness = links / (2nm)) ------------------------------------ *)
CONSTANTS MaxN, MaxCoord, MaxR
VARIABLES pts, r, part, k
vars == <<pts, r, part, k>>
N == Len(pts)
A0 == Adj(pts, r, 1)
W0 == [s \in 1..(2 * N) |-> s * s]
Init == /\ \E n \in 1..MaxN : /\ pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ \A i \in 1..(n-1) : pts[i][1] <= pts[i+1][1]
                              /\ part = {{i} : i \in 1..n} /\ k \in 1..n
        /\ r \in 0..MaxR
Merge == /\ Cardinality(part) > k /\ \E p \in Best(A0, W0, part, 0) : part' = Merged(part, p)
         /\ UNCHANGED <<pts, r, k>>
Next == Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == UNION part = 1..N /\ {} \notin part /\ \A X, Y \in part : X # Y => X \cap Y = {}
(* no cluster leaves its connected component of neighbours; without the limit the components are reached *)
RECURSIVE Reach(_)
Reach(S) == LET R == S \cup UNION {A0[i] : i \in S} IN IF R = S THEN S ELSE Reach(R)
Inside == \A X \in part : \A i \in X : X \subseteq Reach({i})
Stops == <>[](Cardinality(part) = k \/ ~Linked(A0, part))
Meaning == (~ENABLED Merge /\ Cardinality(part) > k) => part = {Reach({i}) : i \in 1..N}
====
