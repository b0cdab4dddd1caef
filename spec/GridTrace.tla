---- MODULE GridTrace ----
(* clique: n, pts, m, thr, clusters, noise, cells [loc, lo, hi (fixed point: lattice unit = 10000), pts], exact (per dimension: the size of a   *)
(* cell is represented exactly).  bang: n, pts (scaled by sc), sc, levels, num, den, amt, clusters, noise, leafs and levs (blocks of levels 1..) *)
(* [lo, hi, reg, amount, dens, pts, cluster], total, dendro (blocks of every cluster as [lo, hi, reg]).                                          *)
EXTENDS TraceBase, Geom
G == INSTANCE Grid WITH MaxN <- 0, MaxCoord <- 0, MaxM <- 0, MaxThr <- 0, Levels <- 1, mode <- "", pts <- <<>>, par <- <<>>, todo <- {}, cur <- {}, out <- {}, noise <- {}
VARIABLES tid, pc
Up(s) == {x + 1 : x \in Range(s)}
Objs(t) == 1..t.n
Shape(t) == IF ~IsPartition(t.n, t.clusters, t.noise) THEN "an object is not in exactly one cluster or in the noise"
            ELSE IF \E c \in DOMAIN t.clusters : t.clusters[c] = <<>> THEN "empty cluster" ELSE ""
Want(t) == {Up(t.clusters[c]) : c \in DOMAIN t.clusters}

CliqueWhy(t) ==
    LET lo == G!CornerLo(t.pts) hi == G!CornerHi(t.pts) dims == DOMAIN t.pts[1]
        locs == {t.cells[k].loc : k \in DOMAIN t.cells}
        holders == [i \in Objs(t) |-> {k \in DOMAIN t.cells : (i - 1) \in Range(t.cells[k].pts)}]
    IN  IF Len(t.cells) # t.m ^ Len(t.pts[1]) \/ Cardinality(locs) # Len(t.cells) \/ \E c \in locs : Len(c) # Len(t.pts[1]) \/ \E d \in dims : c[d] \notin 0..(t.m - 1)
        THEN "cells are not those of the grid"
        ELSE IF \E k \in DOMAIN t.cells : \E d \in dims :
                  \/ Abs(t.cells[k].lo[d] - (10000 * lo[d] + (10000 * (hi[d] - lo[d]) * t.cells[k].loc[d]) \div t.m)) > 2
                  \/ Abs(t.cells[k].hi[d] - (10000 * lo[d] + (10000 * (hi[d] - lo[d]) * (t.cells[k].loc[d] + 1)) \div t.m)) > 2
        THEN "corners of a cell"
        ELSE IF \E i \in Objs(t) : Cardinality(holders[i]) # 1 \/ SumSeq([k \in DOMAIN t.cells |-> Len(t.cells[k].pts)]) # t.n THEN "an object is not in exactly one cell"
        ELSE LET at == [i \in Objs(t) |-> t.cells[CHOOSE k \in holders[i] : TRUE].loc] IN
             IF \E i \in Objs(t) : \E d \in dims : LET c == G!Cell1(t.pts[i][d], lo[d], hi[d], t.m) IN
                    at[i][d] # c /\ ~(~t.exact[d] /\ G!OnBorder(t.pts[i][d], lo[d], hi[d], t.m) /\ at[i][d] = c + 1)
             THEN "an object is not in the cell of its coordinates"
             ELSE IF Want(t) # G!CliqueClusters(at, t.thr) \/ Cardinality(Want(t)) # Len(t.clusters) THEN "clusters are not the connected groups of dense cells"
             ELSE IF Up(t.noise) # G!CliqueNoise(at, t.thr) THEN "noise is not the objects of the other cells" ELSE ""

Of(b) == <<b.lo, b.hi, b.reg>>
RECURSIVE ByLevel(_, _, _, _)                 \* blocks of level k
ByLevel(t, vs, B, k) == IF k = 0 THEN B
    ELSE LET P == ByLevel(t, vs, B, k - 1) d == (k % Len(t.pts[1])) + 1 IN
         UNION {{G!Child(b, d, 1), G!Child(b, d, 2)} : b \in {x \in P : ~G!Stops(t.pts, x, vs, t.num, t.den, t.amt)}}
Same(t, recs, B) == /\ Len(recs) = Cardinality(B)
                    /\ {<<Of(recs[k]), recs[k].amount, Up(recs[k].pts)>> : k \in DOMAIN recs} = {<<Of(b), Cardinality(G!Held(t.pts, b)), G!Held(t.pts, b)>> : b \in B}
BangWhy(t) ==
    LET live == Cardinality({d \in DOMAIN t.pts[1] : G!Lo(t.pts, d) # G!Hi(t.pts, d)})
        vs == t.sc ^ live
        L == G!BangLeaves(t.pts, t.levels, vs, t.num, t.den, t.amt)
        groups == G!BangGroups(t.pts, L, vs, t.num, t.den, t.amt)
    IN  IF \E k \in DOMAIN t.leafs : t.leafs[k].amount # Len(t.leafs[k].pts) \/ ~Distinct(t.leafs[k].pts) THEN "amount of a block is not the number of its objects"
        ELSE IF ~Same(t, t.leafs, L) THEN "leaf blocks are not those of the division"
        ELSE IF \E k \in DOMAIN t.levs : ~Same(t, t.levs[k], ByLevel(t, vs, {G!Root(t.pts)}, IF t.levels = 1 THEN 0 ELSE k)) THEN "blocks of a level"
        ELSE IF Len(t.levs) # G!Max2(1, t.levels - 1) \/ t.total # SumSeq([k \in DOMAIN t.levs |-> Len(t.levs[k])]) THEN "size of the directory"
        ELSE IF \E k \in DOMAIN t.leafs : LET b == t.leafs[k] v == G!Volume(b) IN
                  IF v = 0 THEN b.dens # 0 ELSE v % vs = 0 /\ (b.dens > 2000000 \/ Abs(b.dens * (v \div vs) - b.amount * 1000) > (v \div vs)) THEN "density of a block"
        ELSE IF Want(t) # {G!HeldBy(t.pts, K) : K \in groups} \/ Len(t.clusters) # Cardinality(groups) THEN "clusters are not the touching dense blocks"
        ELSE IF \E c \in DOMAIN t.clusters : LET K == {k \in DOMAIN t.leafs : t.leafs[k].cluster = c - 1} IN
                  {Of(t.leafs[k]) : k \in K} \notin {{Of(b) : b \in X} : X \in groups} \/ UNION {Up(t.leafs[k].pts) : k \in K} # Up(t.clusters[c]) THEN "clusters of the blocks"
        ELSE IF Len(t.dendro) # Len(t.clusters) \/ \E c \in DOMAIN t.clusters : Range(t.dendro[c]) # {Of(t.leafs[k]) : k \in {x \in DOMAIN t.leafs : t.leafs[x].cluster = c - 1}}
                  \/ ~Distinct(t.dendro[c]) THEN "dendrogram" ELSE ""
Why(t) == IF Shape(t) # "" THEN Shape(t) ELSE IF t.kind = "clique" THEN CliqueWhy(t) ELSE BangWhy(t)
Init == tid \in 1..NTraces /\ pc = "check"
Next == pc = "check" /\ pc' = "done" /\ tid' = tid /\ Verdict(tid, 1, Why(Traces[tid]))
Spec == Init /\ [][Next]_<<tid, pc>>
====
