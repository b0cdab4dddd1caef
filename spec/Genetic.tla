---- MODULE Genetic ----
(* Clustering by a genetic algorithm: a chromosome gives every object the number of its cluster; selection copies chromosomes, crossover    *)
(* swaps genes at the same positions of two chromosomes, mutation overwrites genes; fitness is the sum of absolute differences to the       *)
(* centers of the chromosome (the smaller the better); the best chromosome ever seen is kept.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational
(* chromosomes are 0-based numbers of clusters; fitness as a fixed-point number, scale 10^4 *)
Members(ch, c) == {i \in DOMAIN ch : ch[i] = c}
CenterOf(P, ch, c) == MeanOf(P, Members(ch, c))
Fitness(P, ch) == SumOver(Range(ch), [c \in Range(ch) |-> LET m == CenterOf(P, ch, c) IN (10000 * SumOver(Members(ch, c), [i \in Members(ch, c) |-> RNum("manhattan", P[i], m)])) \div m.d])
Valid(ch, n, k) == Len(ch) = n /\ \A i \in DOMAIN ch : ch[i] \in 0..(k - 1)
(* selection probabilities: inverse values, zero for zero, cumulated *)
RECURSIVE Cumulated(_, _)
Cumulated(w, i) == IF i = 0 THEN 0 ELSE Cumulated(w, i - 1) + w[i]

CONSTANTS N, K, Pop, Gens, Data
VARIABLES pop, best, gen, phase, last
vars == <<pop, best, gen, phase, last>>
P0 == [i \in 1..N |-> <<Data[i]>>]
Chroms == [1..N -> 0..(K - 1)]
BestOf(p) == {i \in DOMAIN p : \A j \in DOMAIN p : Fitness(P0, p[i]) <= Fitness(P0, p[j])}
Init == pop \in [1..Pop -> Chroms] /\ best = <<>> /\ gen = 0 /\ phase = "score" /\ last = <<>>
Score == /\ phase = "score" /\ phase' = "select"
         /\ \E i \in BestOf(pop) : last' = pop[i] /\ best' = IF best = <<>> \/ Fitness(P0, pop[i]) < Fitness(P0, best) THEN pop[i] ELSE best
         /\ UNCHANGED <<pop, gen>>
Select == phase = "select" /\ gen < Gens /\ gen' = gen + 1 /\ phase' = "cross" /\ pop' \in [1..Pop -> Range(pop)] /\ UNCHANGED <<best, last>>
Cross == /\ phase = "cross" /\ phase' = "mutate"
         /\ \E a, b \in 1..Pop : \E mask \in SUBSET (1..N) : a # b /\ Cardinality(mask) = N \div 2
               /\ pop' = [pop EXCEPT ![a] = [g \in 1..N |-> IF g \in mask THEN pop[b][g] ELSE pop[a][g]], ![b] = [g \in 1..N |-> IF g \in mask THEN pop[a][g] ELSE pop[b][g]]]
         /\ UNCHANGED <<best, gen, last>>
Mutate == /\ phase = "mutate" /\ phase' = "score"
          /\ \/ pop' = pop
             \/ \E a \in 1..Pop, g \in 1..N, c \in 0..(K - 1) : pop' = [pop EXCEPT ![a][g] = c]
          /\ UNCHANGED <<best, gen, last>>
Next == Score \/ Select \/ Cross \/ Mutate
Spec == Init /\ [][Next]_vars
AllValid == \A i \in 1..Pop : Valid(pop[i], N, K)
BestIsValid == best # <<>> => Valid(best, N, K) /\ (last # <<>> => Fitness(P0, best) <= Fitness(P0, last))
NeverWorse == [][best # <<>> => Fitness(P0, best') <= Fitness(P0, best)]_vars
Genes(p, g, c) == Cardinality({i \in 1..Pop : p[i][g] = c})
CrossKeepsGenes == [][phase = "cross" => \A g \in 1..N, c \in 0..(K - 1) : Genes(pop, g, c) = Genes(pop', g, c)]_vars
SelectInvents == [][phase = "select" => Range(pop') \subseteq Range(pop)]_vars
Renaming == \A ch \in Range(pop) : Fitness(P0, ch) = Fitness(P0, [i \in 1..N |-> K - 1 - ch[i]])
DataValue == <<0, 1, 4, 6>>
====
