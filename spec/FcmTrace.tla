---- MODULE FcmTrace ----
(* Record: core (C++), pts, m, init (centers 10^3), tol (10^-3), runs = for itermax 1, 2, ... [centers, mem (10^4), cl]. *)
EXTENDS TraceBase, Geom, Rational
F == INSTANCE Fcm WITH MaxN <- 0, MaxCoord <- 0, pts <- <<>>, cs <- <<>>, mem <- <<>>, done <- FALSE
VARIABLES tid, l, dev
vars == <<tid, l, dev>>
T == Traces[tid]
Cs(t, k) == IF k = 0 THEN t.init ELSE t.runs[k].centers
RECURSIVE FirstOf(_, _)
FirstOf(w, i) == IF i > Len(w) THEN "" ELSE IF w[i] # "" THEN w[i] ELSE FirstOf(w, i + 1)
Iterated(t, k) ==
    LET r == t.runs[k] rows == FirstOf([i \in DOMAIN t.pts |-> LET w == F!RowWhy(t.m, t.pts[i], Cs(t, k - 1), r.mem[i]) IN
                                              IF w # "" /\ t.core /\ F!RowDeviates(t.m, t.pts[i], Cs(t, k - 1), r.mem[i]) THEN "" ELSE w], 1) IN
    IF rows # "" THEN rows
    ELSE FirstOf([c \in DOMAIN r.centers |-> F!CenterWhy(t.m, t.pts, r.mem, c, Cs(t, k - 1)[c], r.centers[c])], 1)
Why(t, k) ==
    LET r == t.runs[k] n == Len(t.pts) IN
    IF Len(r.mem) # n \/ Len(r.centers) # Len(t.init) \/ Len(r.cl) # Len(t.init) THEN "wrong number of rows, centers or clusters"
    ELSE IF ~IsPartition(n, r.cl, <<>>) THEN "not a partition"
    ELSE IF \E c \in DOMAIN r.cl : \E i \in Range(r.cl[c]) : \E e \in DOMAIN r.cl : r.mem[i + 1][e] > r.mem[i + 1][c] + 1 THEN "object is not in the cluster of its largest membership"
    ELSE LET same == k > 1 /\ r = t.runs[k - 1]
             moved == IF k = 1 THEN 100000 ELSE F!Moved(Cs(t, k - 1), Cs(t, k - 2)) IN
         IF k > 1 /\ moved > t.tol + 3 THEN Iterated(t, k)
         ELSE IF k > 1 /\ moved < t.tol - 3 THEN (IF same THEN "" ELSE "continued although the centers moved less than the tolerance")
         ELSE IF same THEN "" ELSE Iterated(t, k)
Deviates(t, k) == t.core /\ \E i \in DOMAIN t.pts : F!RowWhy(t.m, t.pts[i], Cs(t, k - 1), t.runs[k].mem[i]) # "" /\ F!RowDeviates(t.m, t.pts[i], Cs(t, k - 1), t.runs[k].mem[i])
Init == tid \in 1..NTraces /\ l = 1 /\ dev = FALSE
Step == /\ l > 0 /\ l <= Len(T.runs)
        /\ LET w == Why(T, l) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 /\ dev' = dev ELSE l' = l + 1 /\ dev' = (dev \/ (T.core /\ (l = 1 \/ T.runs[l] # T.runs[l - 1]) /\ Deviates(T, l)))
        /\ tid' = tid
Finish == l = Len(T.runs) + 1 /\ l' = -2 /\ UNCHANGED <<tid, dev>>
          /\ Verdict(tid, l, IF ~T.untouched THEN "input data modified" ELSE IF dev THEN "an object that coincides with a center has memberships in the other centers besides" ELSE "")
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
