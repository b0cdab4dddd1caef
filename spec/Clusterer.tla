---- MODULE Clusterer ----
(* The contract every clustering algorithm obeys, whatever it computes: a session with several instances of one algorithm over one data set.                     *)
(*                                                                                                                                                             *)
(* State: the data as the user sees it, and per instance its stage and its result.  An instance is created, processed (possibly again) and asked for its        *)
(* results in any order; processing places the objects one after another into clusters or noise.  Nothing of this changes the data; the results of one          *)
(* processing never change by asking; instances of a deterministic algorithm answer the same.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Geom

(* what is wrong with clusters and noise (sequences of indexes from 0) of n objects *)
Members(C) == UNION {Range(C[a]) : a \in DOMAIN C}
Size(C) == LenSum(C, Len(C))
ResultWhy(C, noise, n, emptyOk) ==
    IF ~(Members(C) \subseteq 0..(n - 1)) \/ ~(Range(noise) \subseteq 0..(n - 1)) THEN "index outside of the data"
    ELSE IF Members(C) \cap Range(noise) # {} THEN "object is in a cluster and in the noise"
    ELSE IF Cardinality(Members(C)) # Size(C) THEN "object is in several clusters"
    ELSE IF Cardinality(Range(noise)) # Len(noise) THEN "object is several times in the noise"
    ELSE IF Members(C) \cup Range(noise) # 0..(n - 1) THEN "object is in no cluster"
    ELSE IF ~emptyOk /\ \E a \in DOMAIN C : C[a] = <<>> THEN "empty cluster"
    ELSE ""

(* ---- transition system -------------------------------------------------------------------------------------------------------------------------------------- *)
CONSTANTS N, Instances, Noisy, Deterministic, MaxRuns
VARIABLES data, stage, clusters, noise, todo, runs, plan, told
vars == <<data, stage, clusters, noise, todo, runs, plan, told>>
(* plan: what a deterministic algorithm does with each object: the number of the cluster it is placed into, 0 for noise; told: what a user has been answered   *)
Plans == {p \in [1..N -> 0..N] : /\ (Noisy \/ \A i \in 1..N : p[i] # 0)
                                 /\ \A i \in 1..N : p[i] > 0 => p[i] <= 1 + Cardinality({p[j] : j \in 1..(i - 1)} \ {0})}
None == <<>>
Init == /\ data = [i \in 1..N |-> i] /\ stage = [x \in Instances |-> "none"]
        /\ clusters = [x \in Instances |-> <<>>] /\ noise = [x \in Instances |-> <<>>] /\ todo = [x \in Instances |-> <<>>] /\ runs = [x \in Instances |-> 0]
        /\ plan \in (IF Deterministic THEN Plans ELSE {None}) /\ told = [x \in Instances |-> None]
Create(x) == stage[x] = "none" /\ stage' = [stage EXCEPT ![x] = "fresh"] /\ UNCHANGED <<data, clusters, noise, todo, runs, plan, told>>
Process(x) == /\ stage[x] \in {"fresh", "done"} /\ runs[x] < MaxRuns
              /\ stage' = [stage EXCEPT ![x] = "busy"] /\ runs' = [runs EXCEPT ![x] = @ + 1]
              /\ clusters' = [clusters EXCEPT ![x] = <<>>] /\ noise' = [noise EXCEPT ![x] = <<>>] /\ todo' = [todo EXCEPT ![x] = [i \in 1..N |-> i - 1]]
              /\ told' = [told EXCEPT ![x] = None] /\ UNCHANGED <<data, plan>>
Put(x, where) ==
    LET o == Head(todo[x]) IN
    /\ IF where = 0 THEN noise' = [noise EXCEPT ![x] = Append(@, o)] /\ UNCHANGED clusters
       ELSE /\ UNCHANGED noise
            /\ clusters' = [clusters EXCEPT ![x] = IF where > Len(@) THEN Append(@, <<o>>) ELSE [@ EXCEPT ![where] = Append(@, o)]]
    /\ todo' = [todo EXCEPT ![x] = Tail(@)] /\ UNCHANGED <<data, stage, runs, plan, told>>
Place(x) == /\ stage[x] = "busy" /\ todo[x] # <<>>
            /\ IF Deterministic THEN Put(x, plan[Head(todo[x]) + 1]) ELSE \E w \in (IF Noisy THEN 0 ELSE 1)..(Len(clusters[x]) + 1) : Put(x, w)
Finish(x) == stage[x] = "busy" /\ todo[x] = <<>> /\ stage' = [stage EXCEPT ![x] = "done"] /\ UNCHANGED <<data, clusters, noise, todo, runs, plan, told>>
Ask(x) == stage[x] = "done" /\ told' = [told EXCEPT ![x] = <<clusters[x], noise[x]>>] /\ UNCHANGED <<data, stage, clusters, noise, todo, runs, plan>>
Next == \E x \in Instances : Create(x) \/ Process(x) \/ Place(x) \/ Finish(x) \/ Ask(x)
Spec == Init /\ [][Next]_vars /\ \A x \in Instances : WF_vars(Place(x) \/ Finish(x))

Intact == data = [i \in 1..N |-> i]
Whole == \A x \in Instances : stage[x] = "done" => ResultWhy(clusters[x], noise[x], N, FALSE) = ""
Told == \A x \in Instances : told[x] # None => ResultWhy(told[x][1], told[x][2], N, FALSE) = "" /\ told[x] = <<clusters[x], noise[x]>>
Agree == Deterministic => \A x, y \in Instances : told[x] # None /\ told[y] # None => told[x] = told[y]
NoNoise == ~Noisy => \A x \in Instances : noise[x] = <<>>
Stable == [][\A x \in Instances : told[x] # None /\ runs'[x] = runs[x] => told'[x] = told[x]]_vars
Answers == \A x \in Instances : stage[x] = "busy" ~> stage[x] = "done"
====
