---- MODULE NeuronTrace ----
(* Recorded simulations.  kind hh: potentials of all neurons (periphery first, then the two central ones) at every step, whether they were not negative and above  *)
(* the threshold (exactly), times and, when they were collected, the gates; file: the same read back from a written file.  The gates are integrated here from the  *)
(* start, the potential is taken from the record after each step.  The time of an event may be the beginning of its step or the end, the same for the whole run.   *)
(* kind ls: real parts of Landau-Stuart oscillators in consecutive simulations; the hidden parts are integrated here.                                               *)
EXTENDS TraceBase, Geom
M == INSTANCE Neuron WITH Modes <- {}, Stims <- {}, Inhibit <- {}, Step <- 0, Steps <- 0, what <- 0, par <- 0, stim <- 0, cells <- 0, st <- 0, k <- 0
VARIABLES tid, k, when, cells, st
vars == <<tid, k, when, cells, st>>
T == Traces[tid]
Init == /\ tid \in 1..NTraces /\ k = 0 /\ when \in (IF T.kind = "hh" /\ T.events THEN {"begin", "end"} ELSE {"end"})
        /\ IF T.kind = "hh" THEN cells = [i \in 1..(T.n + 2) |-> M!NewCell] /\ st = [i \in 1..(T.n + 2) |-> M!Rest]
           ELSE cells = <<1>> /\ st = [i \in 1..T.n |-> [re |-> T.runs[1].out[1][i], im |-> 0]]
Stop(why) == Verdict(tid, k, why) /\ UNCHANGED tid /\ k' = -1 /\ when' = when /\ cells' = <<>> /\ st' = <<>>
Sub == 5
Allowed(e, i) == (IF T.gates = <<>> THEN 1200 ELSE 800) + (IF i <= T.n THEN (T.stim[i] * T.step) \div 90 ELSE 0) + Abs(e.v - T.v[k + 1][i]) \div 25
Far(e) == {i \in DOMAIN e : Abs(e[i].v - T.v[k + 2][i]) > Allowed(e[i], i)}
GateFar(e, g) == {i \in DOMAIN e : Abs(g[i][1] - e[i].m) > 3000 \/ Abs(g[i][2] - e[i].h) > 3000 \/ Abs(g[i][3] - e[i].n) > 3000}
Expected == [i \in DOMAIN st |-> M!Integrate(T.par, M!Kind(T.par, T.n, cells, i, IF i <= T.n THEN T.stim[i] * 1000 ELSE 0), k * T.step, [st[i] EXCEPT !.v = T.v[k + 1][i]], T.step \div Sub, Sub)]
Spike == /\ T.kind = "hh" /\ k \in 0..(T.steps - 1)
         /\ IF k = 0 /\ (Len(T.v) # T.steps + 1 \/ Len(T.t) # T.steps + 1 \/ \E i \in DOMAIN T.v : Len(T.v[i]) # T.n + 2) THEN Stop("dynamic has another size")
            ELSE IF k = 0 /\ \E i \in DOMAIN T.t : Abs(T.t[i] - (i - 1) * T.step) > 2 THEN Stop("times are wrong")
            ELSE IF k = 0 /\ \E i \in DOMAIN T.v[1] : T.v[1][i] # 0 THEN Stop("network does not start at rest")
            ELSE LET e == Expected IN
                 IF Far(e) # {} THEN Stop("potential differs from the equations")
                 ELSE IF T.gates # <<>> /\ GateFar(e, T.gates[k + 2]) # {} THEN Stop("gates differ from the equations")
                 ELSE /\ k' = k + 1 /\ st' = (IF T.gates = <<>> THEN e ELSE [i \in DOMAIN e |-> [e[i] EXCEPT !.m = T.gates[k + 2][i][1], !.h = T.gates[k + 2][i][2], !.n = T.gates[k + 2][i][3]]]) /\ UNCHANGED <<tid, when>>
                      /\ LET t == (IF when = "begin" THEN k ELSE k + 1) * T.step IN
                         cells' = [i \in DOMAIN cells |-> LET c == M!Fire(cells[i], T.pos[k + 2][i], t) IN IF i <= T.n THEN M!Relink(T.par, c, T.above[k + 2][i], t, T.step) ELSE c]
Near(a, b, d) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN a[i] : Abs(a[i][j] - b[i][j]) <= d
Done == /\ T.kind = "hh" /\ k = T.steps
        /\ Stop(IF T.file # <<>> /\ ~(Near(T.file[1], T.dyn, 6) /\ Near(<<T.file[2]>>, <<T.t>>, 3)) THEN "file does not keep the dynamic" ELSE "")
(* ---- Landau-Stuart; cells holds the number of the simulation ------------------------------------------------------------------------------------------------- *)
R == T.runs[cells[1]]
LsFar(row, z) == \E i \in DOMAIN z : Abs(row[i] - z[i].re) > T.tol
Turn == /\ T.kind = "ls" /\ k >= 0
        /\ LET want == IF R.collect THEN R.steps + 1 ELSE 1 IN
           IF k = 0 /\ (Len(R.out) # want \/ Len(R.t) # want \/ \E i \in DOMAIN R.out : Len(R.out[i]) # T.n) THEN Stop("dynamic has another size")
           ELSE IF k = 0 /\ (IF R.collect THEN \E i \in DOMAIN R.t : Abs(R.t[i] - (i - 1) * R.step) > 2 ELSE Abs(R.t[1] - R.steps * R.step) > 2) THEN Stop("times are wrong")
           ELSE IF k = 0 /\ R.collect /\ LsFar(R.out[1], st) THEN Stop("simulation does not go on from the last one")
           ELSE IF k = R.steps THEN (IF cells[1] = Len(T.runs) THEN Stop("") ELSE cells' = <<cells[1] + 1>> /\ k' = 0 /\ UNCHANGED <<tid, when, st>>)
           ELSE LET z == [i \in DOMAIN st |-> M!LsRun(T.w[i], T.r[i], T.kk, [j \in DOMAIN T.near[i] |-> st[T.near[i][j]]], T.n, st[i], R.step \div Sub, Sub)] IN
                IF (R.collect \/ k + 1 = R.steps) /\ LsFar(IF R.collect THEN R.out[k + 2] ELSE R.out[1], z) THEN Stop("amplitude differs from the equations")
                ELSE k' = k + 1 /\ st' = (IF R.collect THEN [i \in DOMAIN z |-> [z[i] EXCEPT !.re = R.out[k + 2][i]]] ELSE z) /\ UNCHANGED <<tid, when, cells>>
Next == Spike \/ Done \/ Turn
Spec == Init /\ [][Next]_vars
====
