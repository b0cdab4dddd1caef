---- MODULE KdTreeTrace ----
(* Record: dim, init = <<<<point, payload>>..>>, ops; every operation carries the tree after it as nodes = <<[p, w, d, l, r, u]..>>       *)
(* (payload w, children l and r and parent u as positions, 0 for none; the root is first) when it may change the tree. Operations:         *)
(* "init", "ins" (a = point, w), "del" (a), "delw" (a, w), "find" (a, res = position or 0), "findw", "near" (a, r2 = twice the radius,      *)
(* res = positions), "best" (a, r2, res = <<position>> or <<>>).  size is the reported number of points.                                    *)
EXTENDS TraceBase, Geom
K == INSTANCE KdTree WITH Dims <- 1, MaxCoord <- 0, MaxOps <- 0, Radii <- {}, tree <- [d |-> 0], bag <- {}, ops <- 0
VARIABLES tid, l, bag, nodes
vars == <<tid, l, bag, nodes>>
T == Traces[tid]
Init == tid \in 1..NTraces /\ l = 1 /\ bag = <<>> /\ nodes = <<>>
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, r) == Len(s) = Len(r) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(r, s[i])
RECURSIVE Minus(_, _, _)
Minus(s, x, i) == IF i > Len(s) THEN s ELSE IF s[i] = x THEN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) ELSE Minus(s, x, i + 1)
RECURSIVE Build(_, _)
Build(ns, i) == IF i = 0 THEN K!Nil ELSE [k |-> i, p |-> ns[i].p, d |-> ns[i].d + 1, l |-> Build(ns, ns[i].l), r |-> Build(ns, ns[i].r)]
Items(ns) == [i \in DOMAIN ns |-> <<ns[i].p, ns[i].w>>]
(* positions follow the root in preorder, so links that form a tree point forwards *)
TreeWhy(ns, size, b) ==
    IF size # Len(b) THEN "reported number of points is wrong"
    ELSE IF \E i \in DOMAIN ns : (ns[i].l # 0 /\ ns[ns[i].l].u # i) \/ (ns[i].r # 0 /\ ns[ns[i].r].u # i) THEN "a node's parent link is wrong"
    ELSE IF ns # <<>> /\ ns[1].u # 0 THEN "the root has a parent"
    ELSE IF \E i \in DOMAIN ns : ns[i].d \notin 0..(T.dim - 1) THEN "splitting dimension out of range"
    ELSE IF ~K!OrderedTree(IF ns = <<>> THEN K!Nil ELSE Build(ns, 1)) THEN "a point is on the wrong side of a splitting point"
    ELSE IF ~SameBag(Items(ns), b) THEN "the tree does not contain exactly the points inserted and not removed"
    ELSE ""
After(e) == CASE e.op = "init" -> T.init
              [] e.op = "ins" -> Append(bag, <<e.a, e.w>>)
              [] OTHER -> bag
Ball(a, r2) == {i \in DOMAIN nodes : 4 * Sq(a, nodes[i].p) <= r2 * r2}
Why(e) ==
    CASE e.op \in {"init", "ins"} -> TreeWhy(e.nodes, e.size, After(e))
      [] e.op = "delw" -> TreeWhy(e.nodes, e.size, Minus(bag, <<e.a, e.w>>, 1))
      [] e.op = "del" ->      \* any one of the points with these coordinates
           LET c == {i \in DOMAIN bag : bag[i][1] = e.a}
           IN  IF c = {} THEN TreeWhy(e.nodes, e.size, bag)
               ELSE IF \E i \in c : TreeWhy(e.nodes, e.size, Minus(bag, bag[i], 1)) = "" THEN ""
               ELSE TreeWhy(e.nodes, e.size, Minus(bag, bag[CHOOSE i \in c : TRUE], 1))
      [] e.op = "find" -> LET c == {i \in DOMAIN nodes : nodes[i].p = e.a} IN
           IF (c = {} /\ e.res = 0) \/ e.res \in c THEN "" ELSE "lookup by coordinates is wrong"
      [] e.op = "findw" -> LET c == {i \in DOMAIN nodes : nodes[i].p = e.a /\ nodes[i].w = e.w} IN
           IF (c = {} /\ e.res = 0) \/ e.res \in c THEN "" ELSE "lookup by coordinates and payload is wrong"
      [] e.op = "near" -> IF ~Distinct(e.res) \/ Range(e.res) # Ball(e.a, e.r2) THEN "the nodes within the radius are wrong"
                          ELSE IF \E i \in DOMAIN e.res : e.dist[i] # Sq(e.a, nodes[e.res[i]].p) THEN "a reported distance is wrong" ELSE ""
      [] e.op = "best" -> LET b == Ball(e.a, e.r2) IN
           IF b = {} THEN (IF e.res = <<>> THEN "" ELSE "a node outside the radius reported as nearest")
           ELSE IF Len(e.res) = 1 /\ e.res[1] \in b /\ \A i \in b : Sq(e.a, nodes[e.res[1]].p) <= Sq(e.a, nodes[i].p) THEN "" ELSE "the nearest node is wrong"
Step == /\ l > 0 /\ l <= Len(T.ops)
        /\ LET e == T.ops[l] w == Why(e) IN
           IF w # "" THEN Reject(tid, l, w) /\ l' = -1 /\ UNCHANGED <<bag, nodes>>
           ELSE /\ l' = l + 1
                /\ bag' = (IF e.op \in {"init", "ins", "del", "delw"} THEN Items(e.nodes) ELSE bag)
                /\ nodes' = (IF e.op \in {"init", "ins", "del", "delw"} THEN e.nodes ELSE nodes)
        /\ tid' = tid
Finish == l = Len(T.ops) + 1 /\ l' = -2 /\ Accept(tid) /\ UNCHANGED <<tid, bag, nodes>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
