---- MODULE EnsemblesTrace ----
(* An answer for a recorded dynamic: kind spike (thr, tol, ignore, ans), core (thr, tol, m, ans, dead), cnn (steps, ans, obs) or hyst (k, tol, ans, len).   *)
EXTENDS TraceBase, Geom
M == INSTANCE Ensembles WITH N <- 0, MaxT <- 0, Thr <- 0, d <- <<>>, det <- <<>>
VARIABLES tid, done
T == Traces[tid]
Rel(S, F(_, _)) == [p \in S \X S |-> F(p[1], p[2])]
Idx0(t) == 0..(Len(t.dyn[1]) - 1)
SpikeWhy(t) ==
    LET sp == [i \in Idx0(t) |-> IF i \in Range(t.ignore) THEN M!None ELSE M!LastSpike(t.dyn, i + 1, t.thr)]
        S == {i \in Idx0(t) : sp[i] # M!None}
        R(a, x) == M!Near(sp[a], sp[x], t.tol)
    IN IF ~M!Orderly(t.ans, S) THEN "ensembles do not contain every oscillator with a complete spike once"
       ELSE IF ~M!FirstFit(t.ans, Rel(S, R)) THEN "ensembles are not the groups of oscillators with spikes at the same time"
       ELSE ""
CoreWhy(t) ==
    LET sp == [i \in Idx0(t) |-> M!Spikes(t.dyn, i + 1, t.thr, t.m)]
        S == {i \in Idx0(t) : Len(sp[i]) = t.m}
        R(a, x) == M!AlikeAll(sp[x], sp[a], t.tol)
    IN IF ~M!Orderly(t.ans, S) THEN "ensembles do not contain every oscillator with the spikes once"
       ELSE IF Range(t.dead) # Idx0(t) \ S \/ Len(t.dead) # Cardinality(Range(t.dead)) THEN "dead oscillators are not those without the spikes"
       ELSE IF ~M!FirstFit(t.ans, Rel(S, R)) THEN "ensembles are not the groups of oscillators with the same spikes"
       ELSE ""
CnnWhy(t) ==
    LET R(a, x) == IF M!SamePattern(t.dyn, t.steps, a + 1, x + 1) THEN -1 ELSE 1
    IN IF t.obs # M!Observation(t.dyn) THEN "observation matrix is not the positive outputs"
       ELSE IF ~M!Orderly(t.ans, Idx0(t)) THEN "ensembles do not contain every neuron once"
       ELSE IF ~M!FirstFit(t.ans, Rel(Idx0(t), R)) THEN "ensembles are not the groups of neurons with equal patterns"
       ELSE ""
HystWhy(t) ==
    LET s == (Len(t.dyn) - Min2(t.steps, Len(t.dyn)) + 1)..Len(t.dyn)
        R(a, x) == LET w == MaxOf({-1} \cup {M!Cmp(Abs(t.dyn[k][a + 1] - t.dyn[k][x + 1]), t.tol) : k \in s}) IN w
    IN IF ~M!Orderly(t.ans, Idx0(t)) THEN "ensembles do not contain every neuron once"
       ELSE IF ~M!FirstFit(t.ans, Rel(Idx0(t), R)) THEN "ensembles are not the groups of neurons that stay together"
       ELSE ""
Why(t) == IF t.len # Len(t.dyn) THEN "length of the dynamic" ELSE CASE t.kind = "spike" -> SpikeWhy(t) [] t.kind = "core" -> CoreWhy(t) [] t.kind = "cnn" -> CnnWhy(t) [] t.kind = "hyst" -> HystWhy(t)
Init == tid \in 1..NTraces /\ done = FALSE
Next == ~done /\ done' = TRUE /\ Verdict(tid, 0, Why(T)) /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
====
