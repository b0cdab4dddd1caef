---- MODULE Dbscan ----
(* DBSCAN: the transition system (an arbitrary unvisited object is taken, a cluster is grown from it    *)
(* through its core objects) and the declarative meaning of its terminal states.                         *)
EXTENDS Integers, Sequences, FiniteSets, Geom

(* ---- declarative meaning; D[i][j] is a distance, r the radius, mp the number of OTHER objects needed - *)
Near(D, n, r, i) == {j \in 1..n : j # i /\ D[i][j] <= r}
NearMap(D, n, r) == [i \in 1..n |-> Near(D, n, r, i)]
CoreSet(NB, n, mp) == {i \in 1..n : Cardinality(NB[i]) >= mp}

RECURSIVE GrowCore(_, _, _)
GrowCore(NB, C, S) ==
    LET T == S \cup (UNION {NB[i] \cap C : i \in S}) IN IF T = S THEN S ELSE GrowCore(NB, C, T)
Components(NB, C) == {GrowCore(NB, C, {i}) : i \in C}

(* cl: a set of sets of objects, nz: a set of objects; the first violated clause or "" *)
Judge(D, n, r, mp, cl, nz) ==
    LET NB == NearMap(D, n, r)
        C == CoreSet(NB, n, mp)
        comps == Components(NB, C)
    IN  IF nz \cap C # {} THEN "core object reported as noise"
        ELSE IF {S \cap C : S \in cl} # comps \/ Cardinality(cl) # Cardinality(comps)
             THEN "clusters are not the density-connected components of the core objects"
        ELSE IF \E S \in cl : \E i \in S \ C : NB[i] \cap S \cap C = {}
             THEN "border object in a cluster none of whose core objects reaches it"
        ELSE IF \E i \in nz : NB[i] \cap C # {} THEN "object within the radius of a core object reported as noise"
        ELSE ""

(* ---- transition system ------------------------------------------------------------------------------ *)
VARIABLES pts, rad, minp, visited, member, nclust, frontier
vars == <<pts, rad, minp, visited, member, nclust, frontier>>
N == Len(pts)
Dist == [i \in 1..N |-> [j \in 1..N |-> Abs(pts[i] - pts[j])]]
NbOf(i) == Near(Dist, N, rad, i)
IsCore(i) == Cardinality(NbOf(i)) >= minp

CONSTANTS MaxN, MaxCoord, MaxR, MaxP
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> 0..MaxCoord] /\ \A i \in 1..(n-1) : pts[i] <= pts[i+1]
        /\ rad \in 0..MaxR /\ minp \in 0..MaxP
        /\ visited = {} /\ member = [i \in 1..Len(pts) |-> 0] /\ nclust = 0 /\ frontier = {}

Seed(i) == /\ frontier = {} /\ i \notin visited
           /\ visited' = visited \cup {i}
           /\ IF IsCore(i)
              THEN /\ nclust' = nclust + 1
                   /\ member' = [member EXCEPT ![i] = nclust + 1]
                   /\ frontier' = NbOf(i)
              ELSE UNCHANGED <<nclust, member, frontier>>
           /\ UNCHANGED <<pts, rad, minp>>

Absorb(i) == /\ i \in frontier
             /\ member' = [member EXCEPT ![i] = IF @ = 0 THEN nclust ELSE @]
             /\ visited' = visited \cup {i}
             /\ frontier' = (frontier \ {i}) \cup
                    (IF i \notin visited /\ IsCore(i) THEN {j \in NbOf(i) : j \notin visited \/ member[j] = 0} ELSE {})
             /\ UNCHANGED <<pts, rad, minp, nclust>>

Next == \E i \in 1..N : Seed(i) \/ Absorb(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminal == visited = 1..N /\ frontier = {}
Clusters == {{i \in 1..N : member[i] = c} : c \in 1..nclust}
Noise == {i \in 1..N : member[i] = 0}
TypeOK == /\ visited \subseteq 1..N /\ frontier \subseteq 1..N
          /\ \A i \in 1..N : member[i] # 0 => i \in visited
Meaning == Terminal => Judge(Dist, N, rad, minp, Clusters, Noise) = ""
Finishes == <>Terminal
====
