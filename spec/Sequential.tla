---- MODULE Sequential ----
(* Basic / modified / two-threshold sequential clustering: objects are taken in order, a cluster is represented *)
(* by the mean of its members.  Thresholds are tn/td.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational

RNear(m, p, cs) == Nearest(m, p, cs)
Above(m, p, c, tn, td) == IF m = "euclid" THEN RNum(m, p, c) * td * td > tn * tn * RDen(m, c) ELSE RNum(m, p, c) * td > tn * RDen(m, c)
Equal(m, p, c, tn, td) == IF m = "euclid" THEN RNum(m, p, c) * td * td = tn * tn * RDen(m, c) ELSE RNum(m, p, c) * td = tn * RDen(m, c)
Reps(P, cl) == [c \in DOMAIN cl |-> MeanOf(P, cl[c])]
(* answers to "is p farther than the threshold from the nearest representative": floating point may round an exact tie
   to either side when a representative is not a lattice point *)
Answers(m, P, i, cs, tn, td) ==
    LET c == CHOOSE c \in RNear(m, P[i], cs) : TRUE IN
    IF Equal(m, P[i], cs[c], tn, td) /\ (\E e \in RNear(m, P[i], cs) : cs[e].d > 2) THEN {TRUE, FALSE}
    ELSE {Above(m, P[i], cs[c], tn, td)}

(* ---- transition system: algo in {"bsas", "mbsas", "ttsas"} ----------------------------------------- *)
CONSTANTS MaxN, MaxCoord
VARIABLES algo, pts, max, t1, t2, cl, i, skipped, pass, changed
vars == <<algo, pts, max, t1, t2, cl, i, skipped, pass, changed>>
par == <<algo, pts, max, t1, t2>>
N == Len(pts)
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ max \in 1..n
        /\ algo \in {"bsas", "mbsas", "ttsas"} /\ t1 \in 0..MaxCoord /\ t2 \in t1..MaxCoord
        /\ (algo # "ttsas" => t2 = t1) /\ (algo = "ttsas" => max = N)
        /\ cl = <<{1}>> /\ i = 2 /\ skipped = {} /\ pass = 1 /\ changed = TRUE
Open(x) == cl' = Append(cl, {x})
Join(x, cs) == \E c \in RNear("manhattan", pts[x], cs) : cl' = [cl EXCEPT ![c] = @ \cup {x}]
First == /\ pass = 1 /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<par, pass>>
         /\ LET cs == Reps(pts, cl) IN
            \E far1 \in Answers("manhattan", pts, i, cs, t1, 1), far2 \in Answers("manhattan", pts, i, cs, t2, 1) :
            CASE algo = "ttsas" -> IF ~far1 THEN Join(i, cs) /\ changed' = TRUE /\ UNCHANGED skipped
                                   ELSE IF far2 THEN Open(i) /\ changed' = TRUE /\ UNCHANGED skipped
                                   ELSE skipped' = skipped \cup {i} /\ UNCHANGED <<cl, changed>>
              [] far1 /\ Len(cl) < max -> Open(i) /\ UNCHANGED <<skipped, changed>>
              [] algo = "mbsas" -> skipped' = skipped \cup {i} /\ UNCHANGED <<cl, changed>>
              [] OTHER -> Join(i, cs) /\ UNCHANGED <<skipped, changed>>
Again == /\ pass = 1 /\ i > N /\ skipped # {} /\ pass' = 2 /\ i' = 1 /\ UNCHANGED <<par, cl, skipped, changed>>
Second == /\ pass = 2 /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<par>>
          /\ IF i \notin skipped THEN UNCHANGED <<cl, skipped, changed, pass>>
             ELSE IF algo = "mbsas" THEN Join(i, Reps(pts, cl)) /\ skipped' = skipped \ {i} /\ UNCHANGED <<changed, pass>>
             ELSE IF ~changed THEN Open(i) /\ skipped' = skipped \ {i} /\ changed' = TRUE /\ UNCHANGED pass
             ELSE LET cs == Reps(pts, cl) IN
                  \E far1 \in Answers("manhattan", pts, i, cs, t1, 1), far2 \in Answers("manhattan", pts, i, cs, t2, 1) :
                  /\ UNCHANGED <<changed, pass>>
                  /\ IF ~far1 THEN Join(i, cs) /\ skipped' = skipped \ {i}
                     ELSE IF far2 THEN Open(i) /\ skipped' = skipped \ {i}
                     ELSE UNCHANGED <<cl, skipped>>
(* a pass that assigned nothing is followed by one that opens a cluster for its first object *)
Repass == /\ pass = 2 /\ i > N /\ skipped # {} /\ i' = 1 /\ UNCHANGED <<par, cl, skipped, pass>> /\ changed' \in BOOLEAN
Next == First \/ Again \/ Second \/ Repass
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A a, b \in DOMAIN cl : a # b => cl[a] \cap cl[b] = {}
          /\ {} \notin Range(cl) /\ (UNION Range(cl)) \cap skipped = {}
          /\ Len(cl) <= max
Done == i > N /\ skipped = {}
Complete == Done => UNION Range(cl) = 1..N
(* in the two basic schemes representatives of seeds are farther apart than the threshold when they are opened *)
SeedsApart == (algo = "mbsas" /\ pass = 1) => \A a, b \in DOMAIN cl : a # b => \E x \in cl[a], y \in cl[b] : Abs(pts[x][1] - pts[y][1]) > t1 \/ Cardinality(cl[a]) + Cardinality(cl[b]) > 2
====
