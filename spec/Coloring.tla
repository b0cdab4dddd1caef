---- MODULE Coloring ----
(* DSATUR: repeatedly colour an uncoloured vertex of maximal saturation (number of distinct colours among its neighbours), among those  *)
(* one with the most neighbours, with the least colour its neighbours do not have.  And the groups of synchronous neurons of a          *)
(* hysteresis network: a neuron joins the first group whose first neuron stays within the tolerance during the last steps.               *)
EXTENDS Integers, Sequences, FiniteSets, Geom

(* ---- graph: G[i] is the set of neighbours of i; col[i] = 0: uncoloured ------------------------------------------------------------------ *)
Degree(G, i) == Cardinality(G[i])
Colours(G, col, i) == {col[j] : j \in G[i]} \ {0}
Saturation(G, col, i) == Cardinality(Colours(G, col, i))
Least(S) == CHOOSE c \in 1..(Cardinality(S) + 1) : c \notin S /\ \A d \in 1..(c - 1) : d \in S
ColourOf(G, col, i) == Least(Colours(G, col, i))
Next1(G, col) ==
    LET U == {i \in DOMAIN G : col[i] = 0}
        M == {i \in U : \A j \in U : Saturation(G, col, j) <= Saturation(G, col, i)} IN
    {i \in M : \A j \in M : Degree(G, j) <= Degree(G, i)}
Proper(G, col) == \A i \in DOMAIN G : \A j \in G[i] : col[i] # col[j] \/ col[i] = 0
Part(col, S) == [i \in DOMAIN col |-> IF i \in S THEN col[i] ELSE 0]
(* sets of coloured vertices reachable in one more step when the final colouring is col *)
Extend(G, col, F) == UNION {{S \cup {v} : v \in {u \in Next1(G, Part(col, S)) : ColourOf(G, Part(col, S), u) = col[u]}} : S \in F}

(* ---- groups of neurons: dyn[t][i], the last k steps, tolerance tol (strict) --------------------------------------------------------------- *)
Close(dyn, k, tol, i, j) == \A t \in (Len(dyn) - Min2(k, Len(dyn)) + 1)..Len(dyn) : Abs(dyn[t][i] - dyn[t][j]) < tol
RECURSIVE Groups(_, _, _, _)
Groups(dyn, k, tol, m) ==           \* groups of the first m neurons, as sequences
    IF m = 0 THEN <<>>
    ELSE LET g == Groups(dyn, k, tol, m - 1) ok == {x \in DOMAIN g : Close(dyn, k, tol, g[x][1], m)} IN
         IF ok = {} THEN Append(g, <<m>>) ELSE [g EXCEPT ![MinOf(ok)] = Append(@, m)]

(* ---- transition system --------------------------------------------------------------------------------------------------------------------- *)
CONSTANTS MaxN, MaxStates
VARIABLES g, col
vars == <<g, col>>
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
GraphOf(n, E) == [i \in 1..n |-> {j \in 1..n : <<i, j>> \in E \/ <<j, i>> \in E}]
Init == \E n \in 1..MaxN : \E E \in SUBSET Pairs(n) : g = GraphOf(n, E) /\ col = [i \in 1..n |-> 0]
Paint(i) == i \in Next1(g, col) /\ col' = [col EXCEPT ![i] = ColourOf(g, col, i)] /\ UNCHANGED g
Next == \E i \in DOMAIN g : Paint(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A i \in DOMAIN g : col[i] # 0
IsProper == Proper(g, col)
Used(c) == {c[i] : i \in DOMAIN c} \ {0}
Contiguous == Used(col) = 1..Cardinality(Used(col))
Brooks == \A i \in DOMAIN g : col[i] <= Degree(g, i) + 1
Bipartite == \E S \in SUBSET (DOMAIN g) : \A i \in DOMAIN g : \A j \in g[i] : (i \in S) # (j \in S)
TwoColours == Done /\ Bipartite => Cardinality(Used(col)) <= 2
Finishes == <>Done
RECURSIVE Chain(_, _, _)
Chain(G, c, k) == IF k = 0 THEN {{}} ELSE Extend(G, c, Chain(G, c, k - 1))
(* what the conformance check accepts contains every real run *)
Acceptable == Done => Chain(g, col, Cardinality(DOMAIN g)) # {}
(* groups: every neuron once; neurons of a group close to its first; a first neuron close to no earlier group's first *)
ASSUME \A d \in [1..2 -> [1..3 -> 0..2]] : \A k \in 1..3 : \A tol \in 1..2 :
    LET s == Groups(d, k, tol, 3) IN
    /\ UNION {Range(s[x]) : x \in DOMAIN s} = 1..3 /\ SumSeq([x \in DOMAIN s |-> Len(s[x])]) = 3
    /\ \A x \in DOMAIN s : \A i \in Range(s[x]) : Close(d, k, tol, s[x][1], i)
    /\ \A x, y \in DOMAIN s : x < y => ~Close(d, k, tol, s[x][1], s[y][1])
====
