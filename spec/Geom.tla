---- MODULE Geom ----
(* Exact geometry on integer lattices and answers of clustering algorithms as sets of indexes.  *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SumSeqR(_, _)
SumSeqR(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeqR(s, i - 1)
SumSeq(s) == SumSeqR(s, Len(s))

RECURSIVE SumOver(_, _)                       \* sum of f[x] for x in S
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

Dim(p) == Len(p)
Diffs(p, q) == [i \in DOMAIN p |-> p[i] - q[i]]
Sq(p, q) == SumSeq([i \in DOMAIN p |-> (p[i] - q[i]) * (p[i] - q[i])])
Manhattan(p, q) == SumSeq([i \in DOMAIN p |-> Abs(p[i] - q[i])])
Chebyshev(p, q) == MaxOf({Abs(p[i] - q[i]) : i \in DOMAIN p})

Range(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

(* indexes in answers are 0-based as in the library, points are 1-based in TLA+ *)
Idx(n) == 0 .. (n - 1)
SeqOfIdx(n, s) == \A i \in DOMAIN s : s[i] \in Idx(n)
AllIdx(n, clusters) == \A c \in DOMAIN clusters : SeqOfIdx(n, clusters[c])
RECURSIVE LenSum(_, _)
LenSum(cs, i) == IF i = 0 THEN 0 ELSE Len(cs[i]) + LenSum(cs, i - 1)
Covered(clusters) == UNION {Range(clusters[c]) : c \in DOMAIN clusters}

(* every object exactly once, in one cluster or in the noise *)
IsPartition(n, clusters, noise) ==
    /\ AllIdx(n, clusters)
    /\ SeqOfIdx(n, noise)
    /\ LenSum(clusters, Len(clusters)) + Len(noise) = n
    /\ Covered(clusters) \cup Range(noise) = Idx(n)

SetPartition(clusters) == {Range(clusters[c]) : c \in DOMAIN clusters}

IsPermutation(n, s) == Len(s) = n /\ Range(s) = Idx(n)
====
