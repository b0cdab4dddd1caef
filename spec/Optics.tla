---- MODULE Optics ----
(* OPTICS: objects are visited one by one; the next is a reached object with the least reachability or, when none is  *)
(* reached, the first object of the data not yet visited.  NONE stands for an undefined distance.                      *)
EXTENDS Integers, Sequences, FiniteSets, Geom

NONE == -1
DB == INSTANCE Dbscan WITH pts <- <<>>, rad <- 0, minp <- 0, visited <- {}, member <- <<>>, nclust <- 0, frontier <- {},
                           MaxN <- 0, MaxCoord <- 0, MaxR <- 0, MaxP <- 0

(* ---- distances (D any monotone image of the distances, for example their squares) ------------------------------------ *)
(* distance to the nearest neighbour that completes mp others within r *)
CoreDist(D, n, r, mp, i) ==
    LET nb == DB!Near(D, n, r, i) IN
    IF Cardinality(nb) < mp THEN NONE
    ELSE MinOf({D[i][j] : j \in {k \in nb : Cardinality({m \in nb : D[i][m] <= D[i][k]}) >= mp}})
CoreMap(D, n, r, mp) == [i \in 1..n |-> CoreDist(D, n, r, mp, i)]
(* smallest max(core distance, distance) over the core objects of the set V within whose radius i lies *)
ReachFrom(D, n, r, core, V, i) ==
    LET s == {Max2(core[j], D[i][j]) : j \in {k \in V \ {i} : core[k] # NONE /\ D[k][i] <= r}} IN
    IF s = {} THEN NONE ELSE MinOf(s)
Seeds(n, rch, V) == {i \in (1..n) \ V : rch[i] # NONE}
Candidates(n, rch, V) ==
    IF Seeds(n, rch, V) = {} THEN (IF V = 1..n THEN {} ELSE {MinOf((1..n) \ V)})
    ELSE {i \in Seeds(n, rch, V) : \A j \in Seeds(n, rch, V) : rch[i] <= rch[j]}

(* ---- clusters of an ordering (sequence of visited objects): a core object not reached opens a cluster ----------------- *)
RECURSIVE Extract(_, _, _, _)
Extract(order, core, rch, k) ==
    IF k = 0 THEN [cl |-> <<>>, nz |-> <<>>]
    ELSE LET e == Extract(order, core, rch, k - 1) o == order[k] IN
         IF rch[o] = NONE THEN IF core[o] # NONE THEN [e EXCEPT !.cl = Append(@, <<o>>)] ELSE [e EXCEPT !.nz = Append(@, o)]
         ELSE [e EXCEPT !.cl[Len(e.cl)] = Append(@, o)]

(* ---- how many clusters an ordering diagram (sequence of reachabilities) shows at a level ------------------------------ *)
(* every maximal run of values not below the level separates two clusters, and so does every strict local minimum inside   *)
(* a run (plateaus counted once); equal values above the level show nothing                                                *)
RunStart(o, lev, i) == o[i] >= lev /\ (i = 1 \/ o[i - 1] < lev)
FirstOfRun(o, lev, i) == MaxOf({j \in 1..i : RunStart(o, lev, j)})
Rise(o, lev, i) == i > 1 /\ o[i] >= lev /\ o[i - 1] >= lev /\ o[i] > o[i - 1]
(* the last change of value before i-1 inside the run was a fall *)
Valley(o, lev, i) == /\ Rise(o, lev, i)
                     /\ LET ch == {j \in (FirstOfRun(o, lev, i) + 1)..(i - 1) : o[j] # o[j - 1]} IN
                        ch # {} /\ o[MaxOf(ch)] < o[MaxOf(ch) - 1]
Separators(o, lev) == {i \in DOMAIN o : RunStart(o, lev, i) \/ Valley(o, lev, i)}
Flat(o) == \A i \in DOMAIN o : o[i] = o[1]
Amount(o, lev) == IF o = <<>> THEN 0 ELSE IF Flat(o) /\ o[1] > lev THEN 0 ELSE 1 + Cardinality(Separators(o, lev))
Borders(o, lev) == Separators(o, lev) \ {1}

(* ---- transition system ------------------------------------------------------------------------------------------------ *)
VARIABLES pts, rad, minp, order, core, rch
vars == <<pts, rad, minp, order, core, rch>>
CONSTANTS MaxN, MaxCoord, MaxR, MaxP, MaxLen, MaxVal
N == Len(pts)
Dist == [i \in 1..N |-> [j \in 1..N |-> Abs(pts[i] - pts[j])]]
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> 0..MaxCoord]
        /\ rad \in 0..MaxR /\ minp \in 1..MaxP
        /\ order = <<>>
        /\ core = [i \in 1..Len(pts) |-> NONE] /\ rch = [i \in 1..Len(pts) |-> NONE]
Better(old, new) == IF old = NONE \/ new < old THEN new ELSE old
Visit(i) == /\ i \in Candidates(N, rch, Range(order))
            /\ order' = Append(order, i)
            /\ LET c == CoreDist(Dist, N, rad, minp, i) IN
               /\ core' = [core EXCEPT ![i] = c]
               /\ rch' = IF c = NONE THEN rch
                         ELSE [j \in 1..N |-> IF j # i /\ j \notin Range(order) /\ Dist[i][j] <= rad THEN Better(rch[j], Max2(c, Dist[i][j])) ELSE rch[j]]
            /\ UNCHANGED <<pts, rad, minp>>
Next == \E i \in 1..N : Visit(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminal == Len(order) = N
(* incremental bookkeeping = definition *)
Bookkeeping == /\ Distinct(order)
               /\ \A i \in 1..N : i \notin Range(order) => rch[i] = ReachFrom(Dist, N, rad, core, Range(order), i)
               /\ \A k \in DOMAIN order : rch[order[k]] = ReachFrom(Dist, N, rad, core, {order[m] : m \in 1..(k - 1)}, order[k])
SetsOf(s) == {Range(s[k]) : k \in DOMAIN s}
(* the clusters are the density components of the core objects; only a border object visited before them may stay noise *)
Density == Terminal =>
    LET e == Extract(order, core, rch, N)
        NB == DB!NearMap(Dist, N, rad)
        C == DB!CoreSet(NB, N, minp)
    IN  /\ C = {i \in 1..N : core[i] # NONE}
        /\ {S \cap C : S \in SetsOf(e.cl)} = DB!Components(NB, C) /\ Len(e.cl) = Cardinality(DB!Components(NB, C))
        /\ \A S \in SetsOf(e.cl) : \A i \in S \ C : NB[i] \cap S \cap C # {}
        /\ \A i \in Range(e.nz) : i \notin C /\ \A j \in NB[i] \cap C : \A k, m \in DOMAIN order : order[k] = i /\ order[m] = j => k < m
(* a reachability never lies above the radius nor below the core distance that gave it *)
Bounded == \A i \in 1..N : rch[i] <= rad /\ core[i] <= rad
Finishes == <>Terminal
(* the diagram: separators at a level are monotone in the level where no valley is inside a run *)
ASSUME \A k \in 1..MaxLen : \A o \in [1..k -> 0..MaxVal] : \A lev \in 0..(MaxVal + 1) :
          /\ Amount(o, lev) >= 0 /\ Amount(o, lev) <= 1 + k
          /\ (\A i \in DOMAIN o : o[i] < lev) => Amount(o, lev) = 1
====
