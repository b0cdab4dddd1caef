---- MODULE PhasesTrace ----
(* Recorded networks of phase oscillators: kind dyn (a dynamic given from outside), sync, syncnet, hsyncnet, syncpr, gcolor.  states: the first states, tail: the last   *)
(* two when there are more; ens, corr, ord, loc, pm: the views asked for, it = 0 for the last state.                                                           *)
EXTENDS TraceBase, Geom
M == INSTANCE Phases WITH Modes <- {}, N <- 1, Grid <- 1, Tols <- {}, Steps <- 0, mode <- "", ph <- <<>>, tol <- 0, groups <- <<>>, k <- 0, nb <- <<>>
G == INSTANCE Adjacency WITH N <- 1, Weights <- {}, Bits <- 1, MaxGrid <- 1, graph <- <<>>, matrix <- <<>>, words <- <<>>, lists <- <<>>, shape <- <<>>
VARIABLES tid, c, k, N, f
vars == <<tid, c, k, N, f>>
T == Traces[tid]
Ids(s) == {x + 1 : x \in Range(s)}
Nb(t) == [i \in 1..t.n |-> Ids(t.nb[i])]
Structures(t) == {G!Structure(t.type, t.n, t.w)} \cup (IF t.py /\ t.type \in {"four", "eight"} THEN {G!Shifted(t.type, t.n, t.w)} ELSE {})
Neighbours(E, n) == [i \in 1..n |-> {j \in 1..n : <<i - 1, j - 1>> \in E}]
Within(t) == [i \in 1..t.n |-> {j \in 1..t.n \ {i} : 4 * Sq(t.pts[i], t.pts[j]) <= t.r2}]
Full(n) == [i \in 1..n |-> (1..n) \ {i}]
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Distances(t, sq) == LET d == M!Weights([p \in Pairs(t.n) |-> IF sq THEN 10000 * Sq(t.pts[p[1]], t.pts[p[2]]) ELSE t.dist[p[1]][p[2]]]) IN
    [i \in 1..t.n |-> [j \in 1..t.n |-> IF i = j THEN 0 ELSE d[<<Min2(i, j), Max2(i, j)>>]]]
Ones(n) == [i \in 1..n |-> [j \in 1..n |-> 10000]]
Nets(t) == CASE t.kind = "sync" -> {[eq |-> "sync", n |-> t.n, nb |-> Nb(t), weight |-> t.weight]}
             [] t.kind = "syncnet" -> {[eq |-> "syncnet", n |-> t.n, nb |-> Nb(t), w |-> w] : w \in (IF t.wt /\ t.n > 1 THEN {Distances(t, sq) : sq \in BOOLEAN} ELSE {Ones(t.n)})}
             [] t.kind = "syncpr" -> {[eq |-> "syncpr", n |-> t.n, nb |-> Full(t.n), w |-> [i \in 1..t.n |-> [j \in 1..t.n |-> M!Hebb(t.pats, i, j)]], e1 |-> t.e1, e2 |-> t.e2]}
             [] t.kind = "gcolor" -> {[eq |-> "gcolor", n |-> t.n, nb |-> Nb(t), self |-> s, neg |-> t.neg, pos |-> t.pos, red |-> t.red] : s \in BOOLEAN}
             [] OTHER -> {[eq |-> "none", n |-> t.n]}
Init == /\ tid \in 1..NTraces /\ c = "check" /\ k = 1
        /\ N \in Nets(T)
        /\ f = [i \in 1..T.n |-> IF T.kind = "sync" THEN <<0, T.F>> ELSE <<0, 0>>]
Stop(why) == Verdict(tid, k, why) /\ c' = "end" /\ UNCHANGED <<tid, k, N, f>>
Collected == T.states
Last(t) == IF t.tail = <<>> THEN t.states[Len(t.states)] ELSE t.tail[Len(t.tail)]
StateAt(it) == IF it = 0 THEN Last(T) ELSE T.states[it]
Static(t) == t.kind \in {"sync", "syncpr", "gcolor"} /\ t.steps > 0
FirstOk(t) == LET s == t.states[1] IN
    CASE t.init = "equi" -> \A i \in 1..t.n : Abs(s[i] - (314159 * (i - 1)) \div t.n) <= 2
      [] t.init = "pattern" -> \A i \in 1..t.n : Abs(s[i] - (IF t.inp[i] > 0 THEN 0 ELSE 157080)) <= 1
      [] OTHER -> TRUE
Why(t) ==
    IF t.kind = "dyn" THEN ""
    ELSE IF \E s \in Range(t.states) \cup Range(t.tail) : Len(s) # t.n THEN "a state does not have every oscillator"
    ELSE IF t.len < 1 \/ t.len # t.times \/ t.len # t.outs THEN "length of the dynamic"
    ELSE IF \E s \in Range(t.states) \cup Range(t.tail) : \E i \in 1..t.n : s[i] \notin 0..628319 THEN "phase outside of the circle"
    ELSE IF Static(t) /\ t.collect /\ t.len # t.steps + 1 THEN "number of steps"
    ELSE IF t.kind # "hsyncnet" /\ ~t.collect /\ t.len # 1 THEN "states collected without being asked for"
    ELSE IF t.kind \in {"sync", "syncnet", "syncpr", "gcolor"} /\ t.collect /\ \E s \in DOMAIN t.time : Abs(t.time[s] - t.h * (s - 1)) > 30 THEN "time of a state"
    ELSE IF t.kind = "sync" /\ Nb(t) \notin {Neighbours(E, t.n) : E \in Structures(t)} THEN "connections of the network"
    ELSE IF t.kind = "gcolor" /\ Nb(t) # [i \in 1..t.n |-> {j \in 1..t.n : t.graph[i][j] > 0}] THEN "connections are not those of the graph"
    ELSE IF t.kind = "syncnet" /\ Nb(t) # Within(t) THEN "connections are not the objects within the radius"
    ELSE IF t.kind # "hsyncnet" /\ t.collect /\ ~FirstOk(t) THEN "initial phases"
    ELSE ""
Check == c = "check" /\ LET w == Why(T) IN IF w # "" THEN Stop(w) ELSE c' = "run" /\ UNCHANGED <<tid, k, N, f>>
(* ---- one step of the network ---------------------------------------------------------------------------------------------------------------------------------- *)
Tol == 12 + T.n
Coupled(i, v) == LET r == M!Coupling(N, T.states[k], i, v) IN r
Interval(i) == LET a == T.states[k][i] b == T.states[k + 1][i] IN
    IF T.solver = "FAST" THEN LET d == M!Signed(b - a - Coupled(i, a)) IN <<d - Tol, d + Tol>>
    ELSE LET mid == (f[i][1] + f[i][2]) \div 2 h == T.h
             e == M!Signed(b - M!RungeKutta(N, T.states[k], i, mid, h))
             g == (10000 * (Tol + 8)) \div (h \div 10) v == (10000 * e) \div (h \div 10) s == Abs(v) \div 4 + g
         IN <<mid + v - s, mid + v + s>>
Meet(u, v) == <<Max2(u[1], v[1]), Min2(u[2], v[2])>>
Stepped == IF T.kind \notin {"sync", "syncnet", "syncpr", "gcolor"} THEN FALSE ELSE T.collect
Run == /\ c = "run" /\ (IF Stepped THEN k < Len(T.states) ELSE FALSE)

       /\ LET I == [i \in 1..T.n |-> Meet(f[i], Interval(i))] IN
          IF \E i \in 1..T.n : I[i][1] > I[i][2] THEN Verdict(tid, k, "phase does not follow from the phases before") /\ c' = "end" /\ UNCHANGED <<tid, k, N, f>>
          ELSE k' = k + 1 /\ f' = (IF T.F = 0 THEN f ELSE I) /\ UNCHANGED <<tid, c, N>>
(* ---- views and the end of a simulation ---------------------------------------------------------------------------------------------------------------------- *)
PatternOrder(s) == M!Against(s, T.inp)
Measure(s) == M!LocalOrder(s, Nb(T))
Below(s) == IF T.kind = "syncpr" THEN LET n == T.n p == PatternOrder(s) x == SumSeq([i \in 1..n |-> M!Cos(p[i])]) \div 100 y == SumSeq([i \in 1..n |-> M!Sin(p[i])]) \div 100 v == (n * T.order) \div 10 IN x * x + y * y <= (v + 40) * (v + 40)
            ELSE Measure(s) <= T.order + 4
Reached(s) == IF T.kind = "syncpr" THEN M!OrderOk(PatternOrder(s), 10 * T.order, 60) \/ ~Below(s) ELSE Measure(s) >= T.order - 4
Still(a, b) == IF T.kind = "syncpr" THEN LET n == T.n p == PatternOrder(a) r == PatternOrder(b)
                                             S(z) == LET x == SumSeq([i \in 1..n |-> M!Cos(z[i])]) \div 100 y == SumSeq([i \in 1..n |-> M!Sin(z[i])]) \div 100 IN x * x + y * y
                                         IN Abs(S(p) - S(r)) <= 200 * n * n + 8000 * n ELSE Abs(Measure(a) - Measure(b)) <= 4
Two == IF T.tail # <<>> THEN T.tail ELSE IF Len(T.states) > 1 THEN <<T.states[Len(T.states) - 1], T.states[Len(T.states)]>> ELSE <<T.states[1]>>
Ended == IF ~Stepped THEN TRUE ELSE IF T.steps > 0 THEN TRUE ELSE (Reached(Two[Len(Two)]) \/ (Len(Two) > 1 /\ Still(Two[1], Two[2])))
            /\ \A s \in 1..(Len(T.states) - (IF T.tail = <<>> THEN 1 ELSE 0)) : Below(T.states[s])
MapBack(e) == LET g == e.groups IN IF e.idx = <<>> THEN [a \in DOMAIN g |-> [b \in DOMAIN g[a] |-> g[a][b] + 1]]
              ELSE IF Covered(g) \subseteq Range(e.idx) THEN [a \in DOMAIN g |-> [b \in DOMAIN g[a] |-> CHOOSE x \in DOMAIN e.idx : e.idx[x] = g[a][b]]] ELSE <<>>
EnsWhy(e) == M!EnsemblesWhy(StateAt(e.it), e.tol, MapBack(e), 3)
CorrOk(v) == LET s == StateAt(v.it) IN Len(v.m) = T.n /\ \A i \in 1..T.n : Len(v.m[i]) = T.n /\ \A j \in 1..T.n : Abs(v.m[i][j] - M!Correlation(s, i, j)) <= 6
OrdOk(v) == /\ Len(v.vals) = v.amount
            /\ \A x \in DOMAIN v.vals : M!OrderOk(IF v.from = 0 THEN Last(T) ELSE T.states[v.from + x - 1], v.vals[x], 4)
LocOk(v) == /\ Len(v.vals) = v.amount
            /\ \A x \in DOMAIN v.vals : Abs(v.vals[x] - Measure(IF v.from = 0 THEN Last(T) ELSE T.states[v.from + x - 1])) <= 4
PmOk(v) == LET s == StateAt(v.it) IN Len(v.m) = v.rows /\ \A i \in 1..v.rows : Len(v.m[i]) = v.cols /\ \A j \in 1..v.cols : v.m[i][j] = s[j + (i - 1) * v.cols]
Views == /\ c = "run" /\ (IF Stepped THEN k >= Len(T.states) ELSE TRUE)
         /\ LET bad == {EnsWhy(e) : e \in Range(T.ens)} \ {""} IN
            Stop(IF bad # {} THEN CHOOSE w \in bad : TRUE
                 ELSE IF \E v \in Range(T.corr) : ~CorrOk(v) THEN "correlation matrix"
                 ELSE IF \E v \in Range(T.ord) : ~OrdOk(v) THEN "order parameter"
                 ELSE IF \E v \in Range(T.loc) : ~LocOk(v) THEN "local order parameter"
                 ELSE IF \E v \in Range(T.pm) : ~PmOk(v) THEN "phase matrix"
                 ELSE IF T.mem # <<>> /\ ~M!OrderOk(PatternOrder(Last(T)), T.mem[1], 4) THEN "memory order"
                 ELSE IF T.kind = "hsyncnet" /\ Len(T.ens[1].groups) > T.number THEN "more clusters than asked for"
                 ELSE IF ~Ended THEN "simulation ended too early or too late"
                 ELSE "")
Next == Check \/ Run \/ Views
Spec == Init /\ [][Next]_vars
====
