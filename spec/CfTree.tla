---- MODULE CfTree ----
(* Clustering features and the CF-tree. A feature is [n, ls, ss] (number, linear sum, square sum). A tree is a leaf            *)
(* [h |-> 1, es |-> sequence of features] or a node [h |-> height, kids |-> sequence of trees]. An insertion descends to some    *)
(* child (which one is a matter of quality, not of correctness), joins an entry whose diameter stays within the threshold or     *)
(* becomes a new one; over-full leaves and nodes are split, and children of a node may be merged after a split below.            *)
EXTENDS Integers, Sequences, FiniteSets, Geom

Point(p) == [n |-> 1, ls |-> p, ss |-> SumSeq([i \in DOMAIN p |-> p[i] * p[i]])]
Plus(a, b) == [n |-> a.n + b.n, ls |-> [i \in DOMAIN a.ls |-> a.ls[i] + b.ls[i]], ss |-> a.ss + b.ss]
RECURSIVE Total(_)
Total(s) == IF Len(s) = 1 THEN s[1] ELSE Plus(s[Len(s)], Total(SubSeq(s, 1, Len(s) - 1)))
Norm2(v) == SumSeq([i \in DOMAIN v |-> v[i] * v[i]])
(* squared diameter (average squared distance of pairs) = num/den *)
DiamNum(f) == 2 * (f.n * f.ss - Norm2(f.ls))
DiamDen(f) == f.n * (f.n - 1)
Compact(f, tn, td) == f.n = 1 \/ DiamNum(f) * td * td <= tn * tn * DiamDen(f)      \* diameter <= tn/td

(* ---- the definitions the summary measures stand for, over the points themselves --------------------------- *)
PairSum(A, B) == SumSeq([i \in DOMAIN A |-> SumSeq([j \in DOMAIN B |-> Sq(A[i], B[j])])])
SumPts(A) == [k \in DOMAIN A[1] |-> SumSeq([i \in DOMAIN A |-> A[i][k]])]
SseNum(A) == PairSum(A, A)                                 \* sum of squared deviations = SseNum / (2 |A|)
MeasureWhy(A, B, m) ==         \* m: measures scaled by 1000 (squares of those that are roots)
    LET a == Len(A) b == Len(B) c == a + b AB == A \o B
        u == SumPts(A) v == SumPts(B)
        df == [k \in DOMAIN u |-> Abs(b * u[k] - a * v[k])]
        Near(x, num, den) == Abs(x * den - 1000 * num) <= 3 * den
    IN  IF ~Near(m.euclid, SumSeq([k \in DOMAIN df |-> df[k] * df[k]]), a * b * a * b) THEN "centroid distance"
        ELSE IF ~Near(m.manhattan, SumSeq(df), a * b) THEN "centroid Manhattan distance"
        ELSE IF ~Near(m.inter2, PairSum(A, B), a * b) THEN "average inter-cluster distance"
        ELSE IF ~Near(m.intra2, PairSum(AB, AB), c * (c - 1)) THEN "average intra-cluster distance"
        ELSE IF Abs(m.variance * 2 * a * b * c - 1000 * (a * b * SseNum(AB) - b * c * SseNum(A) - a * c * SseNum(B))) > 6 * a * b * c THEN "variance increase"
        ELSE IF ~Near(m.radius2, SseNum(A), 2 * a * a) THEN "radius"
        ELSE IF a > 1 /\ ~Near(m.diameter2, PairSum(A, A), a * (a - 1)) THEN "diameter"
        ELSE IF a = 1 /\ m.diameter2 # 0 THEN "diameter of a single point"
        ELSE ""

(* ---- transition system --------------------------------------------------------------------------------------- *)
CONSTANTS Branch, MaxEntries, Thr, MaxPoints, MaxCoord
VARIABLES tree, given
vars == <<tree, given>>
Leaf(es) == [h |-> 1, es |-> es, kids |-> <<>>]
Node(ks) == [h |-> ks[1].h + 1, es |-> <<>>, kids |-> ks]
RECURSIVE Entries(_)
RECURSIVE EntriesOf(_, _)
Entries(t) == IF t.h = 1 THEN t.es ELSE EntriesOf(t.kids, Len(t.kids))
EntriesOf(ks, i) == IF i = 0 THEN <<>> ELSE EntriesOf(ks, i - 1) \o Entries(ks[i])
Feature(t) == Total(Entries(t))
Without(s, D) == LET keep == {i \in DOMAIN s : i \notin D} IN
    [k \in 1 .. Cardinality(keep) |-> s[CHOOSE i \in keep : Cardinality({j \in keep : j < i}) = k - 1]]
Halves(s) == {<<Without(s, D), Without(s, DOMAIN s \ D)>> : D \in {D \in SUBSET DOMAIN s : D # {} /\ D # DOMAIN s /\ 1 \notin D}}
Replace(s, i, r) == SubSeq(s, 1, i - 1) \o r \o SubSeq(s, i + 1, Len(s))
InsLeaf(es, p) ==
    {<<Leaf([es EXCEPT ![i] = Plus(es[i], Point(p))])>> : i \in {i \in DOMAIN es : Compact(Plus(es[i], Point(p)), Thr, 1)}}
    \cup (IF \E i \in DOMAIN es : ~Compact(Plus(es[i], Point(p)), Thr, 1)
          THEN LET e2 == Append(es, Point(p)) IN IF Len(e2) <= MaxEntries THEN {<<Leaf(e2)>>} ELSE {<<Leaf(hv[1]), Leaf(hv[2])>> : hv \in Halves(e2)}
          ELSE {})
Merged(ks) == {ks} \cup {Append(Without(ks, {i, j}), Node(ks[i].kids \o ks[j].kids)) : <<i, j>> \in
                   {<<i, j>> \in (DOMAIN ks) \X (DOMAIN ks) : i < j /\ ks[i].h > 1 /\ Len(ks[i].kids) + Len(ks[j].kids) <= Branch}}
RECURSIVE Ins(_, _)
Ins(t, p) == IF t.h = 1 THEN InsLeaf(t.es, p) ELSE
    UNION {UNION {LET ks == Replace(t.kids, i, r) IN
                  IF Len(ks) > Branch THEN {<<Node(hv[1]), Node(hv[2])>> : hv \in Halves(ks)}
                  ELSE IF Len(r) = 2 THEN {<<Node(m)>> : m \in Merged(ks)} ELSE {<<Node(ks)>>}
                  : r \in Ins(t.kids[i], p)} : i \in DOMAIN t.kids}
Init == tree = Leaf(<<>>) /\ given = <<>>
Insert(p) == /\ Len(given) < MaxPoints /\ given' = Append(given, p)
             /\ IF given = <<>> THEN tree' = Leaf(<<Point(p)>>)
                ELSE \E r \in Ins(tree, p) : IF Len(r) = 1 THEN tree' = r[1] ELSE \E m \in Merged(r) : tree' = Node(m)
Next == \E x \in 0..MaxCoord : Insert(<<x>>)
Spec == Init /\ [][Next]_vars
RECURSIVE Shape(_)
Shape(t) == IF t.h = 1 THEN Len(t.es) <= MaxEntries ELSE Len(t.kids) <= Branch /\ \A i \in DOMAIN t.kids : t.kids[i].h = t.h - 1 /\ Shape(t.kids[i])
Sound == given # <<>> => /\ Shape(tree)
                         /\ Feature(tree) = Total([i \in DOMAIN given |-> Point(given[i])])
                         /\ \A i \in DOMAIN Entries(tree) : Compact(Entries(tree)[i], Thr, 1)
(* the observable effect of one insertion on the bag of entries, as judged on recorded executions *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, r) == Len(s) = Len(r) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(r, s[i])
EffectOk(old, new, p, tn, td) ==
    \/ SameBag(new, Append(old, Point(p)))
    \/ \E i \in DOMAIN old : SameBag(new, [old EXCEPT ![i] = Plus(old[i], Point(p))]) /\ Compact(Plus(old[i], Point(p)), tn, td)
Effect == [][given # <<>> => EffectOk(Entries(tree), Entries(tree'), given'[Len(given')], Thr, 1)]_vars
====
