---- MODULE Neuron ----
(* Networks of spiking neurons (Hodgkin-Huxley) and of Landau-Stuart oscillators, integrated in fixed point.                                                   *)
(*                                                                                                                                                             *)
(* Hodgkin-Huxley: every neuron has a membrane potential v and gates m, h, n.  Peripheral neurons get their stimulus and are inhibited by the pulses of the     *)
(* two central ones (by those of the second one only while their link is active); the first central neuron is excited by all pulses of the periphery.           *)
(* A pulse is generated when the potential rises to zero; a link becomes active after the potential was above a threshold for a total time of 1/eps, and        *)
(* is given up after deltah.  Within a step everything else is frozen, all neurons move from the same state.                                                    *)
(*                                                                                                                                                             *)
(* Units: potential 10^-4 mV, gates 10^-6, time in microseconds, parameters in tenths (gL and deltah in hundredths), rates 10^-4 per ms.                                   *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Tables

ExpQ(num, den) == LET k == (20 * num) \div den rem == 20 * num - k * den IN          \* 10^4 exp(-num/den)
    IF k >= 199 THEN 0 ELSE LET t == ExpTable[k + 1] d == (rem * 5000) \div den IN t - (t * d) \div 100000 + (t * ((d * d) \div 20000)) \div 1000000
ExpS(x) == IF x >= 0 THEN ExpQ(x, 10000) ELSE LET e == ExpQ(-x, 10000) IN IF e <= 20 THEN 5000000 ELSE (100000000 + e \div 2) \div e      \* 10^4 exp(-x), x in 10^-4
Phi(x) == IF x > 1000 THEN (LET e == ExpS(x) IN (x * (e \div 2)) \div ((10000 - e) \div 2))                                              \* x/(exp(x) - 1)
          ELSE IF x < -1000 THEN (LET e == ExpS(-x) IN ((-x) * 10000) \div (10000 - e)) ELSE 10000 - x \div 2 + (x * x) \div 120000
Rates(p, v) == LET u == v - p.vRest * 1000 IN                                        \* u in 10^-4 mV
    [am |-> Phi(25000 - u \div 10), bm |-> 4 * ExpS(u \div 18), ah |-> 7 * ExpS(u \div 20), bh |-> (LET x == 30000 - u \div 10 IN
        IF x > 0 THEN (LET e == ExpS(x) IN (e * 10000) \div (10000 + e)) ELSE 100000000 \div (10000 + ExpS(-x))),
     an |-> Phi(10000 - u \div 10) \div 10, bn |-> ExpS(u \div 80) \div 8]
Times(rate, g) == IF g < 20000 /\ rate < 100000 THEN (rate * g) \div 10000 ELSE IF rate > 20000 THEN ((rate \div 10) * (g \div 100)) \div 10 ELSE (rate * (g \div 10)) \div 1000               \* rate 10^-4, g 10^-6: 10^-6 per ms
Gate(a, b, g) == Times(a, 1000000 - g) - Times(b, g)
Slow(a, b, g) == ((a \div 4) * ((1000000 - g) \div 100)) \div 2500 - Times(b, g)          \* a 10^-6
(* ionic current, 10^-4 *)
Conduct(c, dv) == LET d == dv \div 100 IN                                            \* c in 10^-7
    IF c < 1500000 THEN ((c \div 10) * d) \div 10000 ELSE IF c < 150000000 THEN ((c \div 1000) * d) \div 100 ELSE ((c \div 10000) * d) \div 10
Sodium(p, s) == LET m == s.m \div 100 m3 == (((m * m) \div 1000) * m) \div 1000 IN Conduct((((m3 \div 100) * (s.h \div 10)) \div 1000) * p.gNa, s.v - p.vNa * 1000)
Potassium(p, s) == LET n == s.n \div 100 n2 == (n * n) \div 1000 IN Conduct((((n2 \div 10) * n2) \div 1000) * p.gK, s.v - p.vK * 1000)
Leak(p, s) == (p.gL * ((s.v - p.vL * 1000) \div 10)) \div 10
(* memory of a pulse t microseconds ago, 10^-4; al, be in tenths *)
Alpha(t, al, be) == LET e == ExpQ(be * (t \div 10), 1000) IN (((al * t) \div 100) * e) \div 100
Memory(t, pulses, al, be) == SumSeq([i \in DOMAIN pulses |-> Alpha(t - pulses[i], al, be)])
Synapse(w, dv, mem) == IF Abs(dv) < 20000 /\ mem < 1000000 THEN ((dv * (mem \div 10)) \div 10000) * w ELSE IF Abs(dv) < 200000 /\ mem < 1000000 THEN (((dv \div 100) * mem) \div 1000) * w ELSE IF mem < 1000000 THEN (((dv \div 1000) * mem) \div 100) * w ELSE (((dv \div 1000) * (mem \div 100))) * w                \* w in tenths, dv 10^-4 mV
(* kind: [what |-> "per" | "one" | "two", ext (10^-4), link (tenths), p1, p2: pulses of the central neurons, pp: all pulses of the periphery] *)
Current(p, kind, t, v) ==
    CASE kind.what = "per" -> Synapse(p.w2, v - p.Vinh * 1000, Memory(t, kind.p1, p.ai, p.bi)) + Synapse(kind.link, v - p.Vinh * 1000, Memory(t, kind.p2, p.ai, p.bi))
      [] kind.what = "one" -> Synapse(p.w1, v - p.Vexc * 1000, Memory(t, kind.pp, p.ae, p.be))
      [] kind.what = "two" -> 0
Slope(p, kind, t, s) == LET r == Rates(p, s.v) IN
    [v |-> kind.ext - Current(p, kind, t, s.v) - Sodium(p, s) - Potassium(p, s) - Leak(p, s),
     m |-> Gate(r.am, r.bm, s.m), h |-> Slow(r.ah, r.bh, s.h), n |-> Gate(r.an, r.bn, s.n)]
Go(s, k, us) == LET f(x, d) == x + (IF Abs(d) > 20000000 THEN (d \div 1000) * us ELSE (d * us + 500) \div 1000) IN [v |-> f(s.v, k.v), m |-> f(s.m, k.m), h |-> f(s.h, k.h), n |-> f(s.n, k.n)]
Mean6(a, b, c, d) == (a + 2 * b + 2 * c + d) \div 6
Rk4(p, kind, t, s, us) ==            \* us even
    LET k1 == Slope(p, kind, t, s) k2 == Slope(p, kind, t + us \div 2, Go(s, k1, us \div 2)) k3 == Slope(p, kind, t + us \div 2, Go(s, k2, us \div 2))
        k4 == Slope(p, kind, t + us, Go(s, k3, us))
    IN Go(s, [v |-> Mean6(k1.v, k2.v, k3.v, k4.v), m |-> Mean6(k1.m, k2.m, k3.m, k4.m), h |-> Mean6(k1.h, k2.h, k3.h, k4.h), n |-> Mean6(k1.n, k2.n, k3.n, k4.n)], us)
RECURSIVE Integrate(_, _, _, _, _, _)
Integrate(p, kind, t, s, us, k) == IF k = 0 THEN s ELSE Integrate(p, kind, t + us, Rk4(p, kind, t, s, us), us, k - 1)

(* ---- the discrete part: pulses and links ----------------------------------------------------------------------------------------------------------------- *)
Fire(c, positive, t) == IF ~c.on /\ positive THEN [c EXCEPT !.on = TRUE, !.pulses = Append(@, t)] ELSE IF c.on /\ ~positive THEN [c EXCEPT !.on = FALSE] ELSE c
Relink(p, c, above, t, step) ==
    IF c.link = 0 THEN
        IF above THEN LET k == c.count + step IN IF k * p.eps >= 10000 THEN [c EXCEPT !.count = k, !.link = p.w3, !.since = t] ELSE [c EXCEPT !.count = k] ELSE c
    ELSE IF c.since < t /\ t < c.since + p.deltah * 10 THEN c ELSE [c EXCEPT !.link = 0, !.count = 0]
NewCell == [on |-> FALSE, pulses |-> <<>>, link |-> 0, count |-> 0, since |-> 0]
AllPulses(cells) == LET RECURSIVE cat(_) cat(i) == IF i = 0 THEN <<>> ELSE cat(i - 1) \o cells[i].pulses IN cat(Len(cells))
Rest == [v |-> 0, m |-> 0, h |-> 0, n |-> 0]
(* what neuron i of the network (n peripheral ones, then two central ones) feels *)
Kind(p, n, cells, i, ext) ==
    IF i <= n THEN [what |-> "per", ext |-> ext, link |-> cells[i].link, p1 |-> cells[n + 1].pulses, p2 |-> cells[n + 2].pulses]
    ELSE IF i = n + 1 THEN [what |-> "one", ext |-> p.i1 * 1000, pp |-> AllPulses(SubSeq(cells, 1, n))]
    ELSE [what |-> "two", ext |-> p.i2 * 1000]

(* ---- Landau-Stuart: z' = (i w + r^2 - |z|^2) z + K/N sum (z_k - z); z = [re, im] in 10^-4; w, r, K in tenths ----------------------------------------------- *)
LsSlope(w, r, kk, near, n, z) ==       \* near: the states of the connected oscillators, frozen
    LET q == (z.re * z.re) \div 10000 + (z.im * z.im) \div 10000 g == r * r * 100 - q
        cre == SumSeq([j \in DOMAIN near |-> near[j].re - z.re]) cim == SumSeq([j \in DOMAIN near |-> near[j].im - z.im])
    IN [re |-> (g * (z.re \div 2)) \div 5000 - (w * z.im) \div 10 + (kk * cre) \div (10 * n), im |-> (g * (z.im \div 2)) \div 5000 + (w * z.re) \div 10 + (kk * cim) \div (10 * n)]
LsGo(z, k, us) == [re |-> z.re + ((k.re \div 10) * us + 5000 * 10) \div 100000, im |-> z.im + ((k.im \div 10) * us + 5000 * 10) \div 100000]
LsRk(w, r, kk, near, n, z, us) ==
    LET k1 == LsSlope(w, r, kk, near, n, z) k2 == LsSlope(w, r, kk, near, n, LsGo(z, k1, us \div 2)) k3 == LsSlope(w, r, kk, near, n, LsGo(z, k2, us \div 2))
        k4 == LsSlope(w, r, kk, near, n, LsGo(z, k3, us))
    IN LsGo(z, [re |-> Mean6(k1.re, k2.re, k3.re, k4.re), im |-> Mean6(k1.im, k2.im, k3.im, k4.im)], us)
RECURSIVE LsRun(_, _, _, _, _, _, _, _)
LsRun(w, r, kk, near, n, z, us, k) == IF k = 0 THEN z ELSE LsRun(w, r, kk, near, n, LsRk(w, r, kk, near, n, z, us), us, k - 1)

(* ---- transition systems ------------------------------------------------------------------------------------------------------------------------------------ *)
CONSTANTS Modes, Stims, Inhibit, Step, Steps
VARIABLES what, par, stim, cells, st, k
vars == <<what, par, stim, cells, st, k>>
Standard == [gNa |-> 1200, gK |-> 360, gL |-> 30, vNa |-> 500, vK |-> -770, vL |-> -544, vRest |-> -650, i1 |-> 50, i2 |-> 300, Vinh |-> -800, Vexc |-> 0,
             ai |-> 60, bi |-> 3, ae |-> 400, be |-> 20, w1 |-> 1, w2 |-> 90, w3 |-> 50, thr |-> -100, eps |-> 30, deltah |-> 53]
N == Len(stim)
Init == /\ k = 0 /\ what \in Modes
        /\ IF what = "hh" THEN /\ \E w \in Inhibit, x \in {50, 300} : par = [Standard EXCEPT !.w2 = w, !.i1 = x]
                               /\ stim \in {<<a, b>> : a \in Stims, b \in Stims} /\ cells = [i \in 1..(N + 2) |-> NewCell] /\ st = [i \in 1..(N + 2) |-> Rest]
           ELSE /\ par \in [w : {0, 10, 30}, r : {5, 10}, kk : {0, 10, 40}] /\ stim \in {<<a, b>> : a \in {1000, 9000}, b \in {1000, 5000}} /\ cells = <<>>
                /\ st = [i \in 1..2 |-> [re |-> stim[i], im |-> 0]]
Sub == 5
Spike == /\ what = "hh" /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<what, par, stim>>
         /\ st' = [i \in DOMAIN st |-> Integrate(par, Kind(par, N, cells, i, IF i <= N THEN stim[i] * 1000 ELSE 0), k * Step, st[i], Step \div Sub, Sub)]
         /\ cells' = [i \in DOMAIN st |-> LET c == Fire(cells[i], st'[i].v >= 0, (k + 1) * Step) IN
                                          IF i <= N THEN Relink(par, c, st'[i].v > par.thr * 1000, (k + 1) * Step, Step) ELSE c]
Turn == /\ what = "ls" /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<what, par, stim, cells>>
        /\ st' = [i \in DOMAIN st |-> LsRun(par.w, par.r, par.kk, <<st[3 - i]>>, 2, st[i], 20000, 5)]
Next == Spike \/ Turn
Spec == Init /\ [][Next]_vars

Norm(z) == (z.re * z.re) \div 10000 + (z.im * z.im) \div 10000
Bounded == IF what = "hh" THEN \A i \in DOMAIN st : /\ st[i].v \in -1000000..700000 /\ st[i].m \in -100..1000100 /\ st[i].h \in -100..1000100 /\ st[i].n \in -100..1000100
           ELSE \A i \in DOMAIN st : Norm(st[i]) <= 11000
Silent == what = "hh" => \A i \in 1..N : stim[i] = 0 => cells[i].pulses = <<>>
Ordered == what = "hh" => \A i \in DOMAIN cells : LET q == cells[i].pulses IN \A a, b \in DOMAIN q : a < b => q[a] + Step < q[b]
Links == what = "hh" => \A i \in 1..N : cells[i].link # 0 => cells[i].count * par.eps >= 10000 /\ cells[i].since <= k * Step
(* equal stimuli, equal neurons; inhibition never helps *)
Equals == (stim[1] = stim[2]) => st[1] = st[2]
(* an uncoupled oscillator approaches its circle *)
Radial == [][(what = "ls" /\ par.kk = 0) => \A i \in DOMAIN st : Abs(Norm(st'[i]) - par.r * par.r * 100) <= Abs(Norm(st[i]) - par.r * par.r * 100) + 12]_vars
(* with a coupling two equal oscillators approach each other *)
Near(s) == Max2(Abs(s[1].re - s[2].re), Abs(s[1].im - s[2].im))
Gathers == [][(what = "ls" /\ par.kk = 40 /\ par.w = 0) => Near(st') <= Near(st) + 6]_vars
====
