---- MODULE Clarans ----
(* CLARANS: several searches from random medoids; a search examines random neighbours (one medoid replaced by another object), moves to a  *)
(* cheaper one at once and gives up after MaxNeighbor unsuccessful examinations in a row; the cheapest of the searches is the answer.        *)
EXTENDS Integers, Sequences, FiniteSets, Geom
NearestIn(P, i, ms) == MinOf({Sq(P[i], P[m]) : m \in Range(ms)})
Cost(P, ms) == SumSeq([i \in DOMAIN P |-> NearestIn(P, i, ms)])
Neighbours(P, ms) == {[ms EXCEPT ![k] = c] : k \in DOMAIN ms, c \in (DOMAIN P) \ Range(ms)}
LocalOptimum(P, ms) == \A o \in Neighbours(P, ms) : Cost(P, o) >= Cost(P, ms)

CONSTANTS MaxN, MaxCoord, MaxK, MaxNeighbor, NumLocal
VARIABLES pts, ms, start, fails, round, best, seen
vars == <<pts, ms, start, fails, round, best, seen>>
Seqs(n, k) == {s \in [1..k -> 1..n] : \A i, j \in 1..k : i < j => s[i] < s[j]}     \* order does not matter
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> {<<x>> : x \in 0..MaxCoord}] /\ \A i \in 1..(n - 1) : pts[i][1] <= pts[i + 1][1]
        /\ \E k \in 1..Min2(MaxK, Len(pts)) : ms \in Seqs(Len(pts), k)
        /\ start = ms /\ fails = 0 /\ round = 1 /\ best = <<>> /\ seen = {}
Busy == fails < MaxNeighbor /\ Neighbours(pts, ms) # {} /\ round <= NumLocal
Examine == /\ Busy
           /\ \E o \in Neighbours(pts, ms) :
                 IF Cost(pts, o) < Cost(pts, ms) THEN ms' = o /\ fails' = 0 /\ seen' = {} ELSE ms' = ms /\ fails' = fails + 1 /\ seen' = seen \cup {o}
           /\ UNCHANGED <<pts, start, round, best>>
Finish == /\ ~Busy /\ round <= NumLocal
          /\ best' = IF best = <<>> \/ Cost(pts, ms) < Cost(pts, best) THEN ms ELSE best
          /\ round' = round + 1 /\ fails' = 0 /\ seen' = {}
          /\ \E s \in Seqs(Len(pts), Len(ms)) : ms' = s /\ start' = s
          /\ UNCHANGED pts
Next == Examine \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
DistinctMedoids == Distinct(ms) /\ Distinct(best)
NotWorseThanStart == Cost(pts, ms) <= Cost(pts, start)
NotWorseThanSeen == \A o \in seen : Cost(pts, o) >= Cost(pts, ms)
(* when every neighbour was examined without success the medoids are a local optimum *)
OptimumWhenAllSeen == seen = Neighbours(pts, ms) => LocalOptimum(pts, ms)
BestIsBest == [][best # <<>> => Cost(pts, best') <= Cost(pts, best)]_vars
Ends == <>(round > NumLocal)
====
