---- MODULE OscillatoryTrace ----
(* Recorded simulations: kind cnn (pts, k, del, ys), hyst (type, n, w, own, neigh, h, xs, out0, out), relay (a hysteresis network that colours a graph: g, alpha, eps) or legion (type, n, w, py, P, st, h, xs, zs; if cut   *)
(* is not 0 the network was simulated again after state cut, with stimulus st2 for steps2 steps), with time and steps.  Every recorded state must follow from the one before.                                                                                     *)
EXTENDS TraceBase, Geom
M == INSTANCE Oscillatory WITH Modes <- {}, Side <- 0, Values <- {}, Steps <- 0, mode <- "", pts <- <<>>, out <- <<>>, x <- <<>>, prev <- <<>>, t <- 0, goal0 <- <<>>
G == INSTANCE Adjacency WITH N <- 1, Weights <- {}, Bits <- 1, MaxGrid <- 1, graph <- <<>>, matrix <- <<>>, words <- <<>>, lists <- <<>>, shape <- <<>>
VARIABLES tid, c, k, nb, out, W, y, p, cp, br
vars == <<tid, c, k, nb, out, W, y, p, cp, br>>
T == Traces[tid]
Structures(t) == IF t.kind \in {"cnn", "relay"} THEN {{}} ELSE {G!Structure(t.type, t.n, t.w)} \cup (IF t.py /\ t.type \in {"four", "eight"} THEN {G!Shifted(t.type, t.n, t.w)} ELSE {})
Neighbours(E, n) == [i \in 1..n |-> {j \in 1..n : <<i - 1, j - 1>> \in E}]
States == IF T.kind = "cnn" THEN T.ys ELSE T.xs
Init == /\ tid \in 1..NTraces /\ c = "check" /\ k = 1 /\ nb \in {Neighbours(E, T.n) : E \in Structures(T)} /\ br = 1
        /\ out = (IF T.kind \in {"hyst", "relay"} THEN T.out0 ELSE <<>>)
        /\ W = (IF T.kind # "cnn" THEN <<>> ELSE LET avg == M!AverageDistance(T.pts, T.k) IN M!Weights(T.pts, avg, IF T.del THEN M!Delaunay(T.pts) ELSE M!Everything(T.pts)))
        /\ y = (IF T.kind # "legion" THEN <<>> ELSE [i \in 1..T.n |-> IF T.py THEN <<0, (T.h * ((T.P.eps * (T.P.gamma \div 5)) \div 1000)) \div 10000 + 5>> ELSE <<0, 0>>])
        /\ p = (IF T.kind # "legion" THEN <<>> ELSE [i \in 1..T.n |-> IF T.py THEN <<0, (T.h * T.P.lamda) \div 10000 + 2>> ELSE <<0, 0>>])
        /\ cp = (IF T.kind # "legion" THEN <<>> ELSE IF T.py THEN [i \in 1..T.n |-> M!CouplingOf(T.P, nb, T.st, [j \in 1..T.n |-> 0], 0, i)] ELSE [i \in 1..T.n |-> <<0, 0>>])
Stop(why) == Verdict(tid, k, why) /\ c' = "end" /\ UNCHANGED <<tid, k, nb, out, W, y, p, cp, br>>
First(t) == IF t.kind = "legion" /\ t.py THEN 1 ELSE 0
Why(t) == LET n == Len(States) IN
    IF \E s \in DOMAIN States : Len(States[s]) # t.n THEN "a state does not have every oscillator"
    ELSE IF t.len # n \/ Len(t.time) # n THEN "length of the dynamic"
    ELSE IF t.kind = "cnn" /\ n # t.steps THEN "number of steps"
    ELSE IF t.kind \in {"hyst", "relay"} /\ n # t.steps + 1 THEN "number of steps"
    ELSE IF t.kind = "relay" /\ \E i \in 1..t.n : Abs(t.xs[1][i] - 10000 + (20000 * (i - 1)) \div t.n) > 2 THEN "initial states"
    ELSE IF t.kind = "relay" /\ \E i \in 1..t.n : t.out0[i] # -1 THEN "initial outputs"
    ELSE IF t.kind = "legion" /\ (IF t.cut = 0 THEN n ELSE t.cut) \notin (IF t.py THEN {t.steps} ELSE {t.steps, t.steps + 1}) THEN "number of steps"
    ELSE IF t.kind = "legion" /\ t.cut > 0 /\ (n - t.cut) \notin (IF t.py THEN {t.steps2} ELSE {t.steps2 - 1, t.steps2}) THEN "number of steps"
    ELSE IF \E s \in 1..n : Abs(t.time[s] - (IF t.kind = "legion" /\ t.cut > 0 /\ s > t.cut THEN t.h * (s - t.cut) ELSE t.h * (s - 1 + First(t)))) > 3 THEN "time of a state"
    ELSE ""
Check == c = "check" /\ LET w == Why(T) IN IF w # "" THEN Stop(w) ELSE c' = "run" /\ UNCHANGED <<tid, k, nb, out, W, y, p, cp, br>>
More == c = "run" /\ k < Len(States)
(* ---- chaotic network ---------------------------------------------------------------------------------------------------------------------------------------- *)
Cnn == /\ More /\ T.kind = "cnn"
       /\ LET z == M!Chaos(W, T.n, T.ys[k])
              S(i) == LET js == {j \in 1..T.n : <<i, j>> \in DOMAIN W} IN SumOver(js, [j \in js |-> W[<<i, j>>]])
          IN IF \E i \in 1..T.n : LET s == S(i) IN s > 200 /\ Abs(z[i] - T.ys[k + 1][i]) > 12 + (30000 * T.n) \div s THEN Stop("output does not follow from the outputs before")
             ELSE k' = k + 1 /\ UNCHANGED <<tid, c, nb, out, W, y, p, cp, br>>
(* ---- hysteresis network --------------------------------------------------------------------------------------------------------------------------------------- *)
Decays == {M!ExpQ(T.h, 10000)}
Hyst == /\ More /\ T.kind \in {"hyst", "relay"}
        /\ LET g == [i \in 1..T.n |-> IF T.kind = "hyst" THEN M!Impact(T.own, T.neigh, nb, out, i) ELSE M!GraphImpact(T.g, T.alpha, T.eps, out, i)]
               ok == \E d \in Decays : \A i \in 1..T.n : Abs(M!Relax(T.xs[k][i], g[i], d) - T.xs[k + 1][i]) <= 12
               R == [i \in 1..T.n |-> M!Relay(out[i], T.xs[k][i], T.xs[k + 1][i], g[i], 12)]
               open == {i \in 1..T.n : Cardinality(R[i]) > 1}
           IN IF ~ok THEN Stop("state does not follow from the state before")
              ELSE IF br > 64 \/ Cardinality(open) > 6 THEN Stop("")                   \* too many to follow
              ELSE \E S \in SUBSET open : /\ out' = [i \in 1..T.n |-> IF i \in open THEN (IF i \in S THEN 1 ELSE -1) ELSE MinOf(R[i])]
                                          /\ br' = (IF open = {} THEN br ELSE 2 * br) /\ k' = k + 1 /\ UNCHANGED <<tid, c, nb, W, y, p, cp>>
(* ---- LEGION ----------------------------------------------------------------------------------------------------------------------------------------------------- *)
St == IF T.cut > 0 /\ k >= T.cut THEN T.st2 ELSE T.st
TimeAt == IF k = T.cut THEN 0 ELSE T.time[k]                              \* a simulation starts at time 0
Part == {10}
Dn(v) == MinOf({(T.h * q * v) \div 100000 : q \in Part})            \* change during a step at speed v, smallest and largest
Up(v) == MaxOf({(T.h * q * v) \div 100000 : q \in Part})
Gate(i) == LET a == p[i][1] + M!ExpQ((T.P.alpha * (TimeAt + 2 * T.h)) \div 1000, 100000) - T.P.teta
               b == p[i][2] + M!ExpQ((T.P.alpha * TimeAt) \div 1000, 100000) - T.P.teta
           IN IF ~T.P.pot THEN <<1, 1>> ELSE <<IF a > T.h THEN 1 ELSE 0, IF b > -T.h THEN 1 ELSE 0>>       \* the potential moves by less than h during the step
Lateral(i) == LET m == SumOver(nb[i], [j \in nb[i] |-> M!StepRange(T.xs[k][j] - T.P.tx, 3)[1]]) n == SumOver(nb[i], [j \in nb[i] |-> M!StepRange(T.xs[k][j] - T.P.tx, 3)[2]])
              IN <<M!StepRange(T.P.T * m - T.P.tp, 0)[1], M!StepRange(T.P.T * n - T.P.tp, 0)[2]>>
StepY(i) == LET a == MinOf({M!Tanh(T.xs[k][i], T.P.betta), M!Tanh(T.xs[k + 1][i], T.P.betta)}) b == MaxOf({M!Tanh(T.xs[k][i], T.P.betta), M!Tanh(T.xs[k + 1][i], T.P.betta)})
                F(th, v) == (T.P.eps * (((T.P.gamma \div 100) * (10000 + th)) \div 100 - v)) \div 10000
            IN <<y[i][1] + Dn(F(a - 20, y[i][1])) - 1, y[i][2] + Up(F(b + 20, y[i][2])) + 1>>
StepP(i) == LET l == Lateral(i)
                F(q, v) == (T.P.lamda * q * (10000 - v) - T.P.mu * v) \div 10000
            IN <<p[i][1] + Dn(F(l[1], p[i][1])) - 1, p[i][2] + Up(F(l[2], p[i][2])) + 1>>
MoveOk(i) == LET a == T.xs[k][i] b == T.xs[k + 1][i]
                 f == (M!Drift(a) + M!Drift(b)) \div 2
                 s == IF St[i] > 0 THEN T.P.I ELSE 0
                 lo == f - y[i][2] + s * Gate(i)[1] + cp[i][1]
                 hi == f - y[i][1] + s * Gate(i)[2] + cp[i][2] + T.P.ro
                 tol == 30 + Abs(b - a) \div 20
             IN b - a \in (Dn(lo) - tol)..(Up(hi) + tol)
InhibitorOk == LET s == M!Sigma(T.P, T.xs[k], 2) IN
    \E q \in Part : \E u \in {s[1], s[2]} : Abs(M!Relax(T.zs[k], 10000 * u, M!ExpQ(((T.P.fi * T.h) \div 10000) * q, 100000)) - T.zs[k + 1]) <= 4
Legion == /\ More /\ T.kind = "legion"
          /\ IF ~InhibitorOk THEN Stop("inhibitor does not follow from the oscillators")
             ELSE IF \E i \in 1..T.n : ~MoveOk(i) THEN Stop("oscillator does not follow its equation")
             ELSE /\ y' = [i \in 1..T.n |-> StepY(i)] /\ p' = [i \in 1..T.n |-> StepP(i)]
                  /\ cp' = [i \in 1..T.n |-> M!CouplingOf(T.P, nb, St, T.xs[k], T.zs[k], i)]
                  /\ k' = k + 1 /\ UNCHANGED <<tid, c, nb, out, W, br>>
End == c = "run" /\ k >= Len(States) /\ Stop(IF T.kind \in {"hyst", "relay"} /\ T.out # out THEN "outputs are not those determined by the states" ELSE "")
Next == Check \/ Cnn \/ Hyst \/ Legion \/ End
Spec == Init /\ [][Next]_vars
====
