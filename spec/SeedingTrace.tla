---- MODULE SeedingTrace ----
(* Record: mat (distances), same (class of equal points per object), k, rule (random | kpp | far), runs = seq of [ix (chosen indexes, 0-based; or empty), pt (class of each     *)
(* returned point, 0 for a point that is no object), draws (per step after the first, numerators over m; empty when not observed)], repeat (reproduced), where (allowed objects).   *)
EXTENDS TraceBase, Geom
S == INSTANCE Seeding WITH MaxN <- 0, MaxCoord <- 0, pts <- <<>>, k <- 0, rule <- "", chosen <- <<>>
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Members(t, c) == {i \in DOMAIN t.same : t.same[i] = c}
(* behaviours of the specification that return the recorded points: indexes when given, otherwise every resolution of equal points that matters not, as equal points are equivalent *)
Options(t, r, chosen) ==
    IF chosen = <<>> \/ t.rule = "random" THEN S!Free(Len(t.same), chosen)
    ELSE IF t.rule = "far" THEN S!Farthest(t.mat, chosen)
    ELSE IF r.draws # <<>> THEN S!BestOfDraws(t.mat, chosen, r.draws[Len(chosen)], t.m)
    ELSE S!Drawable(t.mat, chosen)
RECURSIVE Follow(_, _, _)
Follow(t, r, chosen) ==
    LET p == Len(chosen) + 1 len == IF r.ix # <<>> THEN Len(r.ix) ELSE Len(r.pt) IN
    IF p > len THEN ""
    ELSE IF r.ix # <<>> THEN
         (IF r.ix[p] \notin Idx(Len(t.same)) THEN "index is not that of an object"
          ELSE IF r.ix[p] + 1 \in Range(chosen) THEN "an object is chosen twice"
          ELSE IF r.ix[p] + 1 \notin Options(t, r, chosen) THEN "the rule cannot choose this object"
          ELSE Follow(t, r, Append(chosen, r.ix[p] + 1)))
    ELSE IF r.pt[p] = 0 THEN "a center is not an object of the data"
    ELSE LET free == Members(t, r.pt[p]) \ Range(chosen) opts == free \cap Options(t, r, chosen) IN
         IF free = {} THEN "an object is chosen twice"
         ELSE IF opts = {} THEN "the rule cannot choose this object"
         ELSE Follow(t, r, Append(chosen, CHOOSE i \in opts : TRUE))
Why(t, n) == LET r == t.runs[n] IN
    IF (IF r.ix # <<>> THEN Len(r.ix) ELSE Len(r.pt)) # t.k THEN "wrong number of centers"
    ELSE IF r.ix # <<>> /\ r.pt # <<>> THEN "both"
    ELSE Follow(t, r, <<>>)
Init == tid \in 1..NTraces /\ l = 1
Step == /\ l > 0 /\ l <= Len(T.runs)
        /\ LET w == Why(T, l) IN IF w # "" THEN Reject(tid, l, w) /\ l' = -1 ELSE l' = l + 1
        /\ tid' = tid
Finish == l = Len(T.runs) + 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, IF ~T.repeat THEN "a fixed random state does not reproduce the choice" ELSE IF ~T.untouched THEN "input data modified" ELSE "")
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
====
