---- MODULE OpticsTrace ----
(* t.kind = "run": n, pts or mat (dtype), thresholds lo, hi of the final radius and lo0, hi0 of the given one (in squared or matrix   *)
(* units; they differ only when a distance lies within rounding of the radius), mp, cl, nz, core, rch (same units, -1: none),          *)
(* ord (reported ordering), want (requested number of clusters, 0: none), changed (radius), shown (clusters shown by the ordering at   *)
(* the computed radius).  t.kind = "diagram": ordering, level, amount, borders.  t.kind = "radius": ordering (multiples of unit),       *)
(* want, iters, found, radius.                                                                                                         *)
EXTENDS TraceBase, Geom
O == INSTANCE Optics WITH pts <- <<>>, rad <- 0, minp <- 0, order <- <<>>, core <- <<>>, rch <- <<>>, MaxN <- 0, MaxCoord <- 0, MaxR <- 0, MaxP <- 0, MaxLen <- 0, MaxVal <- 0
VARIABLES tid, l, st, why
vars == <<tid, l, st, why>>
T == Traces[tid]
UpS(s) == [k \in DOMAIN s |-> s[k] + 1]
DM(t) == IF t.dtype = "matrix" THEN t.mat ELSE [i \in DOMAIN t.pts |-> [j \in DOMAIN t.pts |-> Sq(t.pts[i], t.pts[j])]]
(* objects of the noise start in the order of the data, between the clusters *)
RECURSIVE Merge(_, _)
Merge(cl, nz) == IF nz = <<>> THEN (IF cl = <<>> THEN <<>> ELSE Head(cl) \o Merge(Tail(cl), nz))
                 ELSE IF cl = <<>> \/ Head(nz) < Head(cl)[1] THEN <<Head(nz)>> \o Merge(cl, Tail(nz))
                 ELSE Head(cl) \o Merge(Tail(cl), nz)
Shape(t) == IF ~IsPartition(t.n, t.cl, t.nz) THEN "not a partition into clusters and noise"
            ELSE IF \E c \in DOMAIN t.cl : t.cl[c] = <<>> THEN "empty cluster"
            ELSE IF Len(t.core) # t.n \/ Len(t.rch) # t.n THEN "objects are not described one by one" ELSE ""
(* cached once per trace: distances, order and cores *)
Prepare(t) == LET D == DM(t) IN [D |-> D, order |-> Merge([c \in DOMAIN t.cl |-> UpS(t.cl[c])], UpS(t.nz)),
                                  rch |-> [i \in 1..t.n |-> O!NONE], done |-> {}]
StepWhy(t, s, k) ==
    LET i == s.order[k] IN
    IF i \notin O!Candidates(t.n, s.rch, s.done) THEN "next object is not one with the least reachability"
    ELSE IF t.rch[i] # s.rch[i] THEN "reachability is not the smallest over the core objects before"
    ELSE IF t.core[i] # O!CoreDist(s.D, t.n, t.hi, t.mp, i) THEN "core distance is not that of the completing neighbour" ELSE ""
Visit(t, s, k) ==
    LET i == s.order[k] c == t.core[i] IN
    [s EXCEPT !.done = @ \cup {i},
              !.rch = IF c = O!NONE THEN @ ELSE [j \in 1..t.n |-> IF j # i /\ j \notin s.done /\ s.D[i][j] <= t.hi
                                                                  THEN O!Better(s.rch[j], Max2(c, s.D[i][j])) ELSE s.rch[j]]]
RECURSIVE Flatten(_)
Flatten(cl) == IF cl = <<>> THEN <<>> ELSE Head(cl) \o Flatten(Tail(cl))
OrdOf(t) == SelectSeq([k \in DOMAIN Flatten(t.cl) |-> t.rch[Flatten(t.cl)[k] + 1]], LAMBDA x : x # O!NONE)
FinalWhy(t, s) ==
    LET up == [c \in DOMAIN t.cl |-> UpS(t.cl[c])]
        e == O!Extract(s.order, t.core, t.rch, t.n) IN
    IF e.cl # up \/ e.nz # UpS(t.nz) THEN "clusters are not those of the ordering"
    ELSE IF ~t.changed /\ t.ord # OrdOf(t) THEN "ordering is not the reachabilities of the clusters"
    ELSE IF t.changed /\ t.ord # t.ord0 THEN "ordering is not that of the given radius"
    ELSE IF t.want = 0 /\ t.changed THEN "radius changed without a request"
    ELSE IF t.changed /\ t.shown # t.want THEN "radius does not show the requested number of clusters"
    ELSE IF t.changed /\ t.n0 = t.want THEN "radius changed although the number was right"
    ELSE ""
(* bisection between 0 and the highest value, in units 2^-iters of the values *)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(o, want, lo, hi, k) ==
    IF k = 0 THEN [found |-> FALSE, radius |-> 0]
    ELSE LET r == (lo + hi) \div 2 a == O!Amount(o, r) IN
         IF a = want THEN [found |-> TRUE, radius |-> r]
         ELSE IF a = 0 THEN [found |-> FALSE, radius |-> 0]
         ELSE IF a > want THEN Bisect(o, want, r, hi, k - 1) ELSE Bisect(o, want, lo, r, k - 1)
Radius(o, want, iters) == IF o = <<>> \/ O!Amount(o, MaxOf(Range(o))) > want THEN [found |-> FALSE, radius |-> 0] ELSE Bisect(o, want, 0, MaxOf(Range(o)), iters)
OtherWhy(t) ==
    IF t.kind = "diagram"
    THEN IF t.amount # O!Amount(t.ordering, t.level) THEN "number of clusters shown by the ordering"
         ELSE IF t.hasb /\ t.amount > 0 /\ (Range(t.borders) # {b - 1 : b \in O!Borders(t.ordering, t.level)} \/ ~Distinct(t.borders)) THEN "borders of the ordering" ELSE ""
    ELSE LET b == Radius(t.ordering, t.want, t.iters) IN
         IF t.found # b.found \/ (t.found /\ t.radius # b.radius) THEN "radius of the requested number of clusters" ELSE ""
Init == tid \in 1..NTraces /\ l = 0 /\ st = <<>> /\ why = ""
Begin == /\ l = 0 /\ UNCHANGED tid
         /\ IF T.kind # "run" THEN l' = -1 /\ why' = OtherWhy(T) /\ UNCHANGED st
            ELSE /\ why' = Shape(T) /\ l' = IF why' # "" \/ T.lo # T.hi THEN -1 ELSE 1
                 /\ st' = IF why' # "" THEN <<>> ELSE Prepare(T)
Step == /\ l > 0 /\ UNCHANGED tid
        /\ IF l > T.n THEN l' = -1 /\ why' = FinalWhy(T, st) /\ UNCHANGED st
           ELSE LET w == StepWhy(T, st, l) IN
                /\ why' = w /\ l' = IF w # "" THEN -1 ELSE l + 1
                /\ st' = IF w # "" THEN st ELSE Visit(T, st, l)
End == /\ l = -1 /\ l' = -2 /\ UNCHANGED <<tid, st, why>> /\ Verdict(tid, IF T.kind = "run" /\ st # <<>> THEN Cardinality(st.done) ELSE 0, why)
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars
====
