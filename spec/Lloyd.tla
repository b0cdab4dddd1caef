---- MODULE Lloyd ----
(* The Lloyd iteration shared by K-Means (representative = mean) and K-Medians (representative = median):  *)
(* objects go to the nearest representative (exact ties either way), representatives without objects       *)
(* disappear, every representative becomes the mean/median of its objects, until no representative moves    *)
(* by more than the tolerance.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational

Represent(kind, pts, S) == IF kind = "mean" THEN MeanOf(pts, S) ELSE MedianOf(pts, S)

(* cl: sequence of sets of objects; a legal outcome of the assignment to the representatives cs *)
AssignWhy(m, pts, cs, cl) ==
    LET near == [i \in DOMAIN pts |-> Nearest(m, pts[i], cs)]
        cand == [k \in DOMAIN cl |-> {c \in DOMAIN cs : \A i \in cl[k] : c \in near[i]}]
    IN  IF UNION {cl[k] : k \in DOMAIN cl} # DOMAIN pts \/ \E k, j \in DOMAIN cl : k # j /\ cl[k] \cap cl[j] # {}
          THEN "objects are not divided among the clusters"
        ELSE IF \E k \in DOMAIN cl : cl[k] = {} THEN "empty cluster"
        ELSE IF \E k \in DOMAIN cl : cand[k] = {} THEN "object not assigned to its nearest representative"
        ELSE IF ~SDR(cand, 1, {}) THEN "two clusters for one representative"
        ELSE ""
Updated(kind, pts, cl) == [k \in DOMAIN cl |-> Represent(kind, pts, cl[k])]

(* squared-error (as <<num, den>> summands) used only for the design invariant *)
CONSTANTS MaxN, MaxCoord, MaxK, Kind, Metric
VARIABLES pts, cs, cl, steps, done
vars == <<pts, cs, cl, steps, done>>
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ \A i \in 1..(n - 1) : pts[i][1] <= pts[i + 1][1]
        /\ \E k \in 1..MaxK : cs \in [1..k -> {Lattice(<<x>>) : x \in 0..MaxCoord}]
        /\ cl = <<>> /\ steps = 0 /\ done = FALSE
Groups(f) == {i \in DOMAIN cs : \E p \in DOMAIN f : f[p] = i}
RECURSIVE Compact(_, _, _)
Compact(f, i, k) == IF i > k THEN <<>> ELSE LET S == {p \in DOMAIN f : f[p] = i} IN (IF S = {} THEN <<>> ELSE <<S>>) \o Compact(f, i + 1, k)
Iterate == /\ ~done
           /\ \E f \in [DOMAIN pts -> DOMAIN cs] :
                 /\ \A p \in DOMAIN pts : f[p] \in Nearest(Metric, pts[p], cs)
                 /\ cl' = Compact(f, 1, Len(cs))
                 /\ cs' = Updated(Kind, pts, cl')
                 /\ done' = (Len(cs') = Len(cs) /\ \A k \in DOMAIN cs : Same(cs[k], cs'[k]))
           /\ steps' = steps + 1
           /\ UNCHANGED pts
Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* legality of the iteration as judged on recorded executions *)
Legal == [][AssignWhy(Metric, pts, cs, cl') = ""]_vars
(* within-cluster error w.r.t. the lattice scaled by 60 (all counts up to 5 divide 60) never grows *)
Cost60(c, l) == LET per(k) == SumOver(l[k], [i \in l[k] |->
                      LET x == 60 * pts[i][1] - (60 \div c[k].d) * c[k].v[1] IN IF Metric = "sq" THEN x * x ELSE Abs(x)])
                IN SumSeq([k \in DOMAIN l |-> per(k)])
Descent == [][cl # <<>> => Cost60(cs', cl') <= Cost60(cs, cl)]_vars
Converges == <>done
Bounded == steps <= MaxN * MaxCoord
====
