---- MODULE CfTreeTrace ----
(* Records: kind "tree" (pts, bf, me, tn/td and after every insertion the nodes in preorder [f, leaf, kids, u, es], leaves, counters),     *)
(* "measure" (points A and B and the reported measures), "birch" (pts, features, cf clusters, clusters).                                     *)
EXTENDS TraceBase, Geom
C == INSTANCE CfTree WITH Branch <- 2, MaxEntries <- 1, Thr <- 0, MaxPoints <- 0, MaxCoord <- 0, tree <- <<>>, given <- <<>>
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Init == tid \in 1..NTraces /\ l = 1
RECURSIVE AllEntries(_, _)
AllEntries(ns, i) == IF i = 0 THEN <<>> ELSE AllEntries(ns, i - 1) \o ns[i].es
RECURSIVE Depth(_, _)
Depth(ns, i) == IF ns[i].u = 0 THEN 1 ELSE 1 + Depth(ns, ns[i].u)
TreeWhy(t, k) ==
    LET s == t.steps[k] ns == s.nodes es == AllEntries(ns, Len(ns)) leaves == {i \in DOMAIN ns : ns[i].leaf} IN
    IF \E i \in DOMAIN ns : (ns[i].leaf /\ ns[i].es = <<>>) \/ (~ns[i].leaf /\ ns[i].kids = <<>>) THEN "empty node"
    ELSE IF \E i \in DOMAIN ns : ns[i].u < 0 \/ (i = 1) # (ns[i].u = 0) \/ \E c \in DOMAIN ns[i].kids : ns[ns[i].kids[c]].u # i THEN "a parent link is wrong"
    ELSE IF \E i \in DOMAIN ns : ns[i].f # (IF ns[i].leaf THEN C!Total(ns[i].es) ELSE C!Total([c \in DOMAIN ns[i].kids |-> ns[ns[i].kids[c]].f]))
         THEN "the feature of a node is not the sum of what is below it"
    ELSE IF ns[1].f # C!Total([i \in 1..k |-> C!Point(t.pts[i])]) THEN "the tree does not summarise exactly the points inserted"
    ELSE IF \E i \in DOMAIN ns : Len(ns[i].es) > t.me THEN "a leaf exceeds the entry limit"
    ELSE IF \E i \in DOMAIN ns : Len(ns[i].kids) > t.bf THEN "a node exceeds the branching factor"
    ELSE IF \E i \in leaves : Depth(ns, i) # s.height THEN "leaves at different depths or wrong height"
    ELSE IF s.nnodes # Len(ns) THEN "reported number of nodes is wrong"
    ELSE IF s.nentries # Len(es) THEN "reported number of entries is wrong"
    ELSE IF Len(s.leaves) # Cardinality(leaves) \/ Range(s.leaves) # leaves THEN "reported leaves are wrong"
    ELSE IF \E i \in DOMAIN s.levels : s.levels[i] # Cardinality({j \in DOMAIN ns : Depth(ns, j) = i}) THEN "nodes of a level are wrong"
    ELSE IF \E i \in DOMAIN es : es[i].n > 1 /\ ~C!Compact(es[i], t.tn, t.td) THEN "an entry exceeds the diameter"
    ELSE IF k > 1 /\ ~C!EffectOk(AllEntries(t.steps[k - 1].nodes, Len(t.steps[k - 1].nodes)), es, t.pts[k], t.tn, t.td) THEN "an insertion changed more than one entry"
    ELSE ""
(* squared distance of a point to the centroid of a feature, times n^2 *)
CDist(p, f) == SumSeq([k \in DOMAIN p |-> (f.n * p[k] - f.ls[k]) * (f.n * p[k] - f.ls[k])])
Closer(p, f, g) == CDist(p, f) * g.n * g.n <= CDist(p, g) * f.n * f.n
BirchWhy(t) ==
    LET fs == t.features IN
    IF C!Total(fs) # C!Total([i \in DOMAIN t.pts |-> C!Point(t.pts[i])]) THEN "the summaries lose points"
    ELSE IF Len(fs) > t.limit THEN "more summaries than the limit"
    ELSE IF ~IsPartition(Len(fs), t.cf, <<>>) THEN "summaries are not divided among the clusters"
    ELSE IF Len(t.cf) # (IF t.k < Len(fs) THEN t.k ELSE Len(fs)) THEN "number of clusters"
    ELSE IF ~IsPartition(Len(t.pts), t.clusters, <<>>) THEN "not a partition of the objects"
    ELSE IF Len(t.clusters) # Len(t.cf) THEN "clusters do not correspond to clusters of summaries"
    ELSE IF \E c \in DOMAIN t.clusters : \E i \in Range(t.clusters[c]) :
              ~\E e \in Range(t.cf[c]) : \A g \in DOMAIN fs : Closer(t.pts[i + 1], fs[e + 1], fs[g]) THEN "object not in the cluster of its nearest summary"
    ELSE IF ~t.untouched THEN "input data modified"
    ELSE ""
Why(t, k) == CASE t.kind = "tree" -> TreeWhy(t, k) [] t.kind = "measure" -> C!MeasureWhy(t.A, t.B, t.m) [] OTHER -> BirchWhy(t)
Len1(t) == IF t.kind = "tree" THEN Len(t.steps) ELSE 1
Step == /\ l > 0 /\ l <= Len1(T)
        /\ LET w == Why(T, l) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 ELSE l' = l + 1
        /\ tid' = tid
Finish == l = Len1(T) + 1 /\ l' = -2 /\ Accept(tid) /\ tid' = tid
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
