---- MODULE PcnnTrace ----
(* A pulse-coupled network: n, type and width w of its structure, py (Python core), P (parameters), lo and hi (bounds of the initial thresholds) and     *)
(* runs of simulations with st (stimulus), outs (recorded outputs), sync, spike, sig (ensembles and signal reported), time, len.  The outputs drive the   *)
(* specification; a threshold is known up to an interval that the outputs narrow.                                                                          *)
EXTENDS TraceBase, Geom
M == INSTANCE Pcnn WITH MaxN <- 0, Steps <- 0, Links <- {}, Starts <- {}, Structures <- {}, nb <- <<>>, P <- <<>>, st <- <<>>, F <- <<>>, L <- <<>>, th <- <<>>, y <- <<>>, hist <- <<>>, lastf <- <<>>, st0 <- <<>>
G == INSTANCE Adjacency WITH N <- 1, Weights <- {}, Bits <- 1, MaxGrid <- 1, graph <- <<>>, matrix <- <<>>, words <- <<>>, lists <- <<>>, shape <- <<>>
VARIABLES tid, nb, r, k, F, L, lo, hi, y, seen, c, br         \* br: number of behaviours so far (thresholds may be unknown)
vars == <<tid, nb, r, k, F, L, lo, hi, y, seen, c, br>>
T == Traces[tid]
Tol == 15
(* ---- what is reported of a simulation ------------------------------------------------------------------------------------------------------------------ *)
Sets(s) == [i \in DOMAIN s |-> Range(s[i])]
Lens(s) == [i \in DOMAIN s |-> Len(s[i])]
Same(s, want) == Sets(s) = want /\ \A i \in DOMAIN s : Len(s[i]) = Cardinality(want[i])
RunWhy(t, q) ==
    IF \E x \in DOMAIN q.outs : Len(q.outs[x]) # t.n \/ Range(q.outs[x]) \ {0, 1} # {} THEN "outputs are not zeros and ones of every neuron"
    ELSE IF q.len # Len(q.outs) \/ Len(q.outs) # q.steps THEN "length of the dynamic"
    ELSE IF q.time # [x \in DOMAIN q.outs |-> x - 1] THEN "time of the dynamic"
    ELSE IF ~Same(q.sync, M!Sync(q.outs)) THEN "synchronous ensembles are not those of the outputs"
    ELSE IF ~Same(q.spike, M!Spikes(q.outs)) THEN "spike ensembles are not those of the outputs"
    ELSE IF q.sig # M!Signal(q.outs) THEN "time signal is not the number of active neurons"
    ELSE ""
Why(t) == LET bad == {j \in DOMAIN t.runs : RunWhy(t, t.runs[j]) # ""} IN IF t.size # t.n THEN "size of the network" ELSE IF bad = {} THEN "" ELSE RunWhy(t, t.runs[MinOf(bad)])
(* ---- behaviour ----------------------------------------------------------------------------------------------------------------------------------------- *)
Structures(t) == {G!Structure(t.type, t.n, t.w)} \cup (IF t.py /\ t.type \in {"four", "eight"} THEN {G!Shifted(t.type, t.n, t.w)} ELSE {})
Zero(t) == [i \in 1..t.n |-> 0]
Init == /\ tid \in 1..NTraces /\ r = 1 /\ k = 1 /\ c = "check"
        /\ nb \in {M!Neighbours(E, T.n) : E \in Structures(T)}
        /\ F = Zero(T) /\ L = Zero(T) /\ y = Zero(T) /\ seen = {} /\ br = 1
        /\ lo = [i \in 1..T.n |-> T.lo] /\ hi = [i \in 1..T.n |-> T.hi]
Stop(why) == Verdict(tid, 100 * r + k, why) /\ c' = "end" /\ UNCHANGED <<tid, nb, r, k, F, L, lo, hi, y, seen, br>>
Check == c = "check" /\ LET w == Why(T) IN IF w = "" THEN c' = "next" /\ UNCHANGED <<tid, nb, r, k, F, L, lo, hi, y, seen, br>> ELSE Stop(w)
Obs == T.runs[r].outs[k]
(* outputs possible for activity a of neuron i *)
Poss(a, i) == IF a = 0 THEN {0} ELSE IF hi[i] = 0 THEN {1} ELSE (IF a > lo[i] - Tol THEN {1} ELSE {}) \cup (IF a < hi[i] + Tol THEN {0} ELSE {})
Narrow(f, l, z) == /\ lo' = [i \in DOMAIN lo |-> IF z[i] = 0 THEN Max2(lo[i], M!Activity(T.P, f[i], l[i]) - Tol) ELSE lo[i]]
                   /\ hi' = [i \in DOMAIN hi |-> IF z[i] = 1 THEN Min2(hi[i], M!Activity(T.P, f[i], l[i]) + Tol) ELSE hi[i]]
(* the first state of a Python simulation is the state before it *)
Keep == c = "next" /\ r <= Len(T.runs) /\ k <= Len(T.runs[r].outs) /\ T.py /\ k = 1
        /\ IF Obs # y THEN Stop("the first state is not the state before the simulation") ELSE k' = 2 /\ UNCHANGED <<tid, nb, r, F, L, lo, hi, y, seen, c, br>>
Turn == c = "next" /\ r <= Len(T.runs) /\ k > Len(T.runs[r].outs) /\ r' = r + 1 /\ k' = 1 /\ UNCHANGED <<tid, nb, F, L, lo, hi, y, seen, c, br>>
End == c = "next" /\ r > Len(T.runs) /\ Stop("")
(* outputs possible for activities A; only neurons whose outcome is open are enumerated *)
Open(A) == {i \in DOMAIN A : Cardinality(Poss(A[i], i)) > 1}
Outs(A) == LET o == Open(A) IN {[i \in DOMAIN A |-> IF i \in o THEN (IF i \in S THEN 1 ELSE 0) ELSE MinOf(Poss(A[i], i))] : S \in SUBSET o}
RECURSIVE Pow2(_)
Pow2(x) == IF x = 0 THEN 1 ELSE 2 * Pow2(x - 1)
Many(A) == Cardinality(Open(A)) > 8 \/ br * Pow2(Cardinality(Open(A))) > 256
Acts(f, l) == [i \in DOMAIN f |-> M!Activity(T.P, f[i], l[i])]
Step == /\ c = "next" /\ r <= Len(T.runs) /\ k <= Len(T.runs[r].outs) /\ ~(T.py /\ k = 1)
        /\ LET f == M!AllF(T.P, nb, F, T.runs[r].st, y)
               l == M!AllL(T.P, nb, L, y)
               A == Acts(f, l)
           IN IF ~T.P.fast
              THEN IF \E i \in DOMAIN f : Obs[i] \notin Poss(A[i], i) THEN Stop("output does not follow from activity and threshold")
                   ELSE F' = f /\ L' = l /\ y' = Obs /\ Narrow(f, l, Obs) /\ seen' = {} /\ c' = "adapt" /\ UNCHANGED <<tid, nb, r, k, br>>
              ELSE IF Many(A) THEN Stop("")                        \* too many to follow
              ELSE \E z \in Outs(A) : /\ br' = br * Pow2(Cardinality(Open(A))) /\ F' = f /\ L' = l /\ y' = z /\ Narrow(f, l, z) /\ seen' = {z} /\ c' = "link"
                                     /\ UNCHANGED <<tid, nb, r, k>>
Link == /\ c = "link"
        /\ LET l == M!Relink(T.P, nb, y)
               A == Acts(F, l)
               Z == {z \in Outs(A) : z \in seen => z = Obs}
           IN IF Many(A) THEN Stop("")
              ELSE IF Z = {} THEN Stop("output does not follow from fast linking")
              ELSE \E z \in Z : /\ br' = br * Cardinality(Z) /\ L' = l /\ y' = z /\ Narrow(F, l, z) /\ seen' = seen \cup {z} /\ c' = (IF z \in seen THEN "adapt" ELSE "link")
                              /\ UNCHANGED <<tid, nb, r, k, F>>
Adapt == /\ c = "adapt" /\ c' = "next" /\ k' = k + 1
         /\ lo' = [i \in DOMAIN lo |-> Max2(0, M!Threshold(T.P, lo[i], y[i]) - 2)] /\ hi' = [i \in DOMAIN hi |-> M!Threshold(T.P, hi[i], y[i])]
         /\ UNCHANGED <<tid, nb, r, F, L, y, seen, br>>
Next == Check \/ Keep \/ Turn \/ End \/ Step \/ Link \/ Adapt
Spec == Init /\ [][Next]_vars
====
