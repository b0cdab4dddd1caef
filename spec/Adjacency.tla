---- MODULE Adjacency ----
(* A weighted directed graph under updates, the standard structures, and the representations used by the collections (matrix of      *)
(* weights, words of bits, lists of neighbours) refining it.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, Geom

(* ---- structures over nodes 0..n-1; a grid is w wide and h high ---------------------------------------------------------------------- *)
Row(i, w) == i \div w
Col(i, w) == i % w
Touch4(i, j, w) == Abs(Row(i, w) - Row(j, w)) + Abs(Col(i, w) - Col(j, w)) = 1
Touch8(i, j, w) == i # j /\ Abs(Row(i, w) - Row(j, w)) <= 1 /\ Abs(Col(i, w) - Col(j, w)) <= 1
Structure(type, n, w) == LET N == 0..(n - 1) IN
    CASE type = "none" -> {}
      [] type = "all" -> {p \in N \X N : p[1] # p[2]}
      [] type = "list" -> {p \in N \X N : Abs(p[1] - p[2]) = 1}
      [] type = "four" -> {p \in N \X N : Touch4(p[1], p[2], w)}
      [] type = "eight" -> {p \in N \X N : Touch8(p[1], p[2], w)}
(* the structure built by a known defect: a row of horizontal connections starts at the second node of a row of the grid *)
Shifted(type, n, w) == LET N == 0..(n - 1) R(i) == (i + w - 1) \div w IN
    {p \in Structure(type, n, w) : Row(p[1], w) # Row(p[2], w)} \cup {p \in N \X N : Abs(p[1] - p[2]) = 1 /\ R(p[1]) = R(p[2])}
RootOf(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
Square(n) == RootOf(n) * RootOf(n) = n

(* ---- transition system: the abstract graph and three representations, updated together ------------------------------------------------ *)
CONSTANTS N, Weights, Bits, MaxGrid
VARIABLES graph, matrix, words, lists, shape
vars == <<graph, matrix, words, lists, shape>>
Nodes == 0..(N - 1)
NWords == (N + Bits - 1) \div Bits
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
BitOf(wd, b) == (wd \div P2(b)) % 2
Init == /\ graph = [p \in Nodes \X Nodes |-> 0] /\ matrix = [i \in Nodes |-> [j \in Nodes |-> 0]]
        /\ words = [i \in Nodes |-> [k \in 0..(NWords - 1) |-> 0]] /\ lists = [i \in Nodes |-> {}]
        /\ shape \in {<<w, h>> : w, h \in 1..MaxGrid}
Put(i, j, x) == /\ graph' = [graph EXCEPT ![<<i, j>>] = x] /\ matrix' = [matrix EXCEPT ![i][j] = x]
                /\ words' = [words EXCEPT ![i][j \div Bits] = @ + (IF x # 0 THEN 1 - BitOf(@, j % Bits) ELSE -BitOf(@, j % Bits)) * P2(j % Bits)]
                /\ lists' = [lists EXCEPT ![i] = {e \in @ : e[1] # j} \cup (IF x = 0 THEN {} ELSE {<<j, x>>})]
                /\ UNCHANGED shape
Next == \E i, j \in Nodes : \E x \in Weights \cup {0} : Put(i, j, x)
Spec == Init /\ [][Next]_vars
Represent == \A i, j \in Nodes : /\ matrix[i][j] = graph[<<i, j>>]
                                 /\ (BitOf(words[i][j \div Bits], j % Bits) = 1) <=> graph[<<i, j>>] # 0
                                 /\ (\E e \in lists[i] : e[1] = j) <=> graph[<<i, j>>] # 0
                                 /\ \A e \in lists[i] : e[1] = j => e[2] = graph[<<i, j>>]
OneEntry == \A i \in Nodes : \A e, f \in lists[i] : e[1] = f[1] => e = f
(* structures: symmetric, no loops, right number of connections; index arithmetic of a grid agrees with coordinates *)
Sym(E) == \A p \in E : <<p[2], p[1]>> \in E /\ p[1] # p[2]
ByIndex(n, w) == UNION {{<<i, j>> : j \in {j \in 0..(n - 1) : \/ j = i - w \/ j = i + w \/ (j = i - 1 /\ j \div w = i \div w) \/ (j = i + 1 /\ j \div w = i \div w)}} : i \in 0..(n - 1)}
GridsRight == LET w == shape[1] h == shape[2] n == w * h IN
    /\ \A t \in {"all", "list", "four", "eight"} : Sym(Structure(t, n, w))
    /\ Structure("four", n, w) = ByIndex(n, w)
    /\ Cardinality(Structure("four", n, w)) = 2 * (w * (h - 1) + h * (w - 1))
    /\ Cardinality(Structure("eight", n, w)) = 2 * (w * (h - 1) + h * (w - 1)) + 4 * (w - 1) * (h - 1)
    /\ Cardinality(Structure("all", n, w)) = n * (n - 1) /\ Cardinality(Structure("list", n, w)) = 2 * (n - 1)
    /\ Structure("four", n, w) \subseteq Structure("eight", n, w)
====
