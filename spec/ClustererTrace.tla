---- MODULE ClustererTrace ----
(* Recorded sessions: n, pts (as given by the user, 10^4 fixed point), det, noisy, empty (empty clusters possible by definition), resume (processing again *)
(* goes on from the centers found), ops: a sequence of [op, x (instance), ...]: create, process, clusters (v), noise (v), extra, data (v).                     *)
EXTENDS TraceBase, Geom
M == INSTANCE Clusterer WITH N <- 1, Instances <- {}, Noisy <- TRUE, Deterministic <- TRUE, MaxRuns <- 1,
        data <- 0, stage <- 0, clusters <- 0, noise <- 0, todo <- 0, runs <- 0, plan <- 0, told <- 0
VARIABLES tid, k, stage, clusters, noise, plan
vars == <<tid, k, stage, clusters, noise, plan>>
(* stage: how often an instance is processed, -1 before it is created *)
T == Traces[tid]
X == 1..T.instances
Unset == [known |-> FALSE, v |-> <<>>]
Init == /\ tid \in 1..NTraces /\ k = 1 /\ stage = [x \in X |-> -1] /\ clusters = [x \in X |-> Unset] /\ noise = [x \in X |-> Unset]
        /\ plan = [clusters |-> Unset, noise |-> Unset]
O == T.ops[k]
Stop(why) == Verdict(tid, k, why) /\ k' = 0 /\ UNCHANGED <<tid, stage, clusters, noise, plan>>
Going == k > 0 /\ k <= Len(T.ops)
Go == k' = k + 1 /\ UNCHANGED tid
Create == Going /\ O.op = "create" /\ stage' = [stage EXCEPT ![O.x] = 0] /\ Go /\ UNCHANGED <<clusters, noise, plan>>
Process == Going /\ O.op = "process" /\ stage' = [stage EXCEPT ![O.x] = @ + 1] /\ Go /\ UNCHANGED plan
           /\ clusters' = [clusters EXCEPT ![O.x] = Unset] /\ noise' = [noise EXCEPT ![O.x] = IF T.noisy THEN Unset ELSE [known |-> TRUE, v |-> <<>>]]
Learn(what, x) == [what EXCEPT ![x] = [known |-> TRUE, v |-> O.v]]
Fixed == T.det /\ (T.resume => stage[O.x] = 1)          \* resume: another run goes on with what the last one found
Ask(what, old) == IF old.known /\ old.v # O.v THEN "asking again gives another answer"
                  ELSE IF Fixed /\ plan[what].known /\ plan[what].v # O.v THEN "another instance or run over the same data gives another answer"
                  ELSE ""
Whole(x, c, s) == IF c[x].known /\ s[x].known THEN M!ResultWhy(c[x].v, s[x].v, T.n, T.empty) ELSE ""
Clusters == /\ Going /\ O.op = "clusters"
            /\ LET w == Ask("clusters", clusters[O.x]) c == Learn(clusters, O.x) u == Whole(O.x, c, noise) IN
               IF w # "" \/ u # "" THEN Stop(IF w # "" THEN w ELSE u)
               ELSE clusters' = c /\ plan' = (IF Fixed THEN [plan EXCEPT !.clusters = [known |-> TRUE, v |-> O.v]] ELSE plan) /\ Go /\ UNCHANGED <<stage, noise>>
Noise == /\ Going /\ O.op = "noise"
         /\ LET w == Ask("noise", noise[O.x]) s == Learn(noise, O.x) u == Whole(O.x, clusters, s) IN
            IF w # "" \/ u # "" THEN Stop(IF w # "" THEN w ELSE u)
            ELSE noise' = s /\ plan' = (IF Fixed THEN [plan EXCEPT !.noise = [known |-> TRUE, v |-> O.v]] ELSE plan) /\ Go /\ UNCHANGED <<stage, clusters>>
Extra == Going /\ O.op = "extra" /\ Go /\ UNCHANGED <<stage, clusters, noise, plan>>
Data == /\ Going /\ O.op = "data"
        /\ IF O.v # T.pts THEN Stop("the data of the user is changed") ELSE Go /\ UNCHANGED <<stage, clusters, noise, plan>>
End == k = Len(T.ops) + 1 /\ Stop("")
Next == Create \/ Process \/ Clusters \/ Noise \/ Extra \/ Data \/ End
Spec == Init /\ [][Next]_vars
====
