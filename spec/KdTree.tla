---- MODULE KdTree ----
(* A kd-tree under insertions and removals. Nodes are [k |-> identity, p |-> point, d |-> splitting dimension, l, r]; the empty *)
(* tree has d = 0. Smaller coordinates go left, equal and larger ones right; a removed node is replaced by one with the least   *)
(* coordinate of its right subtree (of its left subtree, moved to the right, when there is none).                                *)
EXTENDS Integers, Sequences, FiniteSets, Geom
Nil == [d |-> 0]
IsNil(t) == t.d = 0
RECURSIVE Nodes(_)
Nodes(t) == IF IsNil(t) THEN {} ELSE {t} \cup Nodes(t.l) \cup Nodes(t.r)
Keys(t) == {n.k : n \in Nodes(t)}
RECURSIVE OrderedTree(_)
OrderedTree(t) == IsNil(t) \/ (/\ \A n \in Nodes(t.l) : n.p[t.d] < t.p[t.d]
                               /\ \A n \in Nodes(t.r) : n.p[t.d] >= t.p[t.d]
                               /\ OrderedTree(t.l) /\ OrderedTree(t.r))
NextDisc(d, dim) == (d % dim) + 1
RECURSIVE Put(_, _, _, _, _)
Put(t, k, p, d, dim) == IF IsNil(t) THEN [k |-> k, p |-> p, d |-> d, l |-> Nil, r |-> Nil]
                        ELSE IF p[t.d] < t.p[t.d] THEN [t EXCEPT !.l = Put(t.l, k, p, NextDisc(t.d, dim), dim)]
                        ELSE [t EXCEPT !.r = Put(t.r, k, p, NextDisc(t.d, dim), dim)]
Least(t, d) == {n \in Nodes(t) : \A o \in Nodes(t) : n.p[d] <= o.p[d]}
Pick(S, low) == CHOOSE n \in S : \A o \in S : IF low THEN n.k <= o.k ELSE n.k >= o.k
RECURSIVE Drop(_, _, _)
Drop(t, k, low) ==
    IF t.k # k THEN (IF k \in Keys(t.l) THEN [t EXCEPT !.l = Drop(t.l, k, low)] ELSE [t EXCEPT !.r = Drop(t.r, k, low)])
    ELSE IF IsNil(t.l) /\ IsNil(t.r) THEN Nil
    ELSE LET right == IF IsNil(t.r) THEN t.l ELSE t.r
             left == IF IsNil(t.r) THEN Nil ELSE t.l
             m == Pick(Least(right, t.d), low)
         IN  [k |-> m.k, p |-> m.p, d |-> t.d, l |-> left, r |-> Drop(right, m.k, low)]
(* lookup by descending; search with pruning *)
RECURSIVE Find(_, _)
Find(t, p) == IF IsNil(t) THEN 0 ELSE IF t.p = p THEN t.k ELSE IF t.p[t.d] <= p[t.d] THEN Find(t.r, p) ELSE Find(t.l, p)
RECURSIVE Within(_, _, _)
Within(t, q, r) == IF IsNil(t) THEN {} ELSE
    (IF Sq(q, t.p) <= r * r THEN {t.k} ELSE {})
    \cup (IF q[t.d] >= t.p[t.d] - r THEN Within(t.r, q, r) ELSE {})
    \cup (IF q[t.d] < t.p[t.d] + r THEN Within(t.l, q, r) ELSE {})

CONSTANTS Dims, MaxCoord, MaxOps, Radii
Space == [1..Dims -> 0..MaxCoord]
VARIABLES tree, bag, ops           \* bag: identity -> point, of the points inserted and not removed
vars == <<tree, bag, ops>>
Init == tree = Nil /\ bag = {} /\ ops = 0
Insert(p) == /\ ops < MaxOps /\ ops' = ops + 1
             /\ tree' = Put(tree, ops + 1, p, 1, Dims) /\ bag' = bag \cup {<<ops + 1, p>>}
Remove(k, low) == /\ ops < MaxOps /\ ops' = ops + 1
                  /\ tree' = Drop(tree, k, low) /\ bag' = {b \in bag : b[1] # k}
Next == (\E p \in Space : Insert(p)) \/ (\E b \in bag : \E low \in BOOLEAN : Remove(b[1], low))
Spec == Init /\ [][Next]_vars
Contents == {<<n.k, n.p>> : n \in Nodes(tree)} = bag /\ Cardinality(Nodes(tree)) = Cardinality(bag)
Ordered == OrderedTree(tree)
Lookup == \A p \in Space : LET f == Find(tree, p) IN IF f = 0 THEN \A b \in bag : b[2] # p ELSE <<f, p>> \in bag
Search == \A q \in Space, r \in Radii : Within(tree, q, r) = {b[1] : b \in {x \in bag : Sq(q, x[2]) <= r * r}}
====
