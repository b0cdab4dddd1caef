---- MODULE Pcnn ----
(* Pulse-coupled neural network.  In every step each neuron gets feeding F' = AF F + stimulus + VF M (number of active neighbours) and linking          *)
(* L' = AL L + VL W (number of active neighbours), fires iff F'(1 + B L') exceeds its threshold, and the threshold becomes AT theta + VT (output).      *)
(* With fast linking the outputs of one step are linked again, L = VL W (number of active neighbours), until they are stable or start to repeat.        *)
(* Activities and thresholds are in 10^-4, parameters in 10^-3.                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, Geom

One == 10000
(* products are rounded up, so a quantity is zero only if it is exactly zero *)
Mul(p, x) == LET q == x \div 1000 IN p * q + (p * (x - 1000 * q) + 999) \div 1000
Mul4(f, g) == LET q == f \div 100 IN (q * g) \div 100 + ((f - 100 * q) * g + 9999) \div 10000
Active(nb, y, i) == Cardinality({j \in nb[i] : y[j] = 1})
Feeding(P, f, s, k) == Mul(P.AF, f) + s + Mul(P.VF, Mul(P.M, One * k))
Coupling(P, k) == Mul(P.VL, Mul(P.W, One * k))
Linking(P, l, k) == Mul(P.AL, l) + Coupling(P, k)
Activity(P, f, l) == Mul4(f, One + Mul(P.B, l))
Threshold(P, th, out) == Mul(P.AT, th) + Mul(P.VT, One * out)
AllF(P, nb, F, st, y) == [i \in DOMAIN F |-> Feeding(P, F[i], st[i], Active(nb, y, i))]
AllL(P, nb, L, y) == [i \in DOMAIN L |-> Linking(P, L[i], Active(nb, y, i))]
Relink(P, nb, y) == [i \in DOMAIN y |-> Coupling(P, Active(nb, y, i))]
Fire(P, F, L, th) == [i \in DOMAIN F |-> IF Activity(P, F[i], L[i]) > th[i] THEN 1 ELSE 0]
RECURSIVE FastR(_, _, _, _, _, _)
FastR(P, nb, F, th, y, seen) ==
    LET l == Relink(P, nb, y) z == Fire(P, F, l, th) IN
    IF z \in seen THEN [y |-> z, L |-> l, from |-> y] ELSE FastR(P, nb, F, th, z, seen \cup {z})
Neighbours(E, n) == [i \in 1..n |-> {j \in 1..n : <<i - 1, j - 1>> \in E}]

(* ---- what a dynamic d (outputs over time) contains -------------------------------------------------------------------------------------------------- *)
Fired(d) == {i \in DOMAIN d[1] : \E t \in DOMAIN d : d[t][i] = 1}
LastFire(d, i) == MaxOf({t \in DOMAIN d : d[t][i] = 1})
RECURSIVE SyncR(_, _)
SyncR(d, t) == IF t = 0 THEN <<>> ELSE LET e == {i - 1 : i \in {i \in Fired(d) : LastFire(d, i) = t}} IN (IF e = {} THEN <<>> ELSE <<e>>) \o SyncR(d, t - 1)
Sync(d) == IF d = <<>> THEN <<>> ELSE SyncR(d, Len(d))                    \* groups by the last step of activity, the latest first
RECURSIVE SpikesR(_, _)
SpikesR(d, t) == IF t = 0 THEN <<>> ELSE LET e == {i - 1 : i \in {i \in DOMAIN d[t] : d[t][i] = 1}} IN SpikesR(d, t - 1) \o (IF e = {} THEN <<>> ELSE <<e>>)
Spikes(d) == SpikesR(d, Len(d))
Signal(d) == [t \in DOMAIN d |-> SumSeq(d[t])]

(* ---- transition system ------------------------------------------------------------------------------------------------------------------------------ *)
CONSTANTS MaxN, Steps, Links, Starts, Structures
VARIABLES nb, P, st, F, L, th, y, hist, lastf, st0
vars == <<nb, P, st, F, L, th, y, hist, lastf, st0>>
Base == [VF |-> 1000, VL |-> 1000, VT |-> 10000, AF |-> 100, AL |-> 100, AT |-> 500, W |-> 1000, M |-> 1000, B |-> 100, fast |-> FALSE]
Sets == {Base} \cup {[Base EXCEPT !.B = b, !.VT = 1000, !.AL = 500, !.fast = TRUE] : b \in Links} \cup {[Base EXCEPT !.VT = 500, !.AT = 800, !.M = 0]}
Edges(s, n) == LET N == 0..(n - 1) IN CASE s = "none" -> {} [] s = "all" -> {p \in N \X N : p[1] # p[2]} [] s = "list" -> {p \in N \X N : Abs(p[1] - p[2]) = 1}
Init == \E n \in 1..MaxN : \E s \in Structures :
        /\ nb = Neighbours(Edges(s, n), n) /\ P \in Sets
        /\ st \in [1..n -> {0, One}] /\ th \in [1..n -> Starts] /\ st0 = [th |-> th, all |-> s # "list"]
        /\ F = [i \in 1..n |-> 0] /\ L = F /\ y = F /\ hist = <<>> /\ lastf = [i \in 1..n |-> 0]
Next == /\ Len(hist) < Steps
        /\ LET f == AllF(P, nb, F, st, y) l == AllL(P, nb, L, y) z == Fire(P, f, l, th)
               r == IF P.fast THEN FastR(P, nb, f, th, z, {z}) ELSE [y |-> z, L |-> l, from |-> z]
           IN /\ F' = f /\ L' = r.L /\ y' = r.y /\ hist' = Append(hist, r.y)
              /\ th' = [i \in DOMAIN th |-> Threshold(P, th[i], r.y[i])]
              /\ lastf' = [i \in DOMAIN th |-> IF r.y[i] = 1 THEN Len(hist) + 1 ELSE lastf[i]]
        /\ UNCHANGED <<nb, P, st, st0>>
Spec == Init /\ [][Next]_vars
(* without stimulus nothing ever fires; equal neurons with equal connections never come apart; positive quantities stay so *)
Silence == (\A i \in DOMAIN st : st[i] = 0) => \A t \in DOMAIN hist : \A i \in DOMAIN st : hist[t][i] = 0
Symmetric == st0.all => \A i, j \in DOMAIN st : st[i] = st[j] /\ st0.th[i] = st0.th[j] => \A t \in DOMAIN hist : hist[t][i] = hist[t][j]
Positive == \A i \in DOMAIN st : F[i] >= 0 /\ L[i] >= 0 /\ th[i] >= 0
(* threshold rises with a spike and otherwise decays *)
Refractory == [][\A i \in DOMAIN th : IF y'[i] = 1 THEN th'[i] >= Mul(P.VT, One) ELSE th'[i] <= th[i] + 1]_vars
(* the online bookkeeping of last spikes yields the same ensembles as the definition over the whole dynamic *)
EnsemblesRight == hist # <<>> =>
    LET s == Sync(hist) IN
    /\ UNION Range(s) = {i - 1 : i \in Fired(hist)}
    /\ \A a, b \in DOMAIN s : a # b => s[a] \cap s[b] = {}
    /\ \A a \in DOMAIN s : \A i, j \in s[a] : lastf[i + 1] = lastf[j + 1]
    /\ \A a, b \in DOMAIN s : a < b => \A i \in s[a] : \A j \in s[b] : lastf[i + 1] > lastf[j + 1]
    /\ SumSeq(Signal(hist)) = SumSeq([k \in DOMAIN Spikes(hist) |-> Cardinality(Spikes(hist)[k])])
    /\ Len(Spikes(hist)) = Cardinality({t \in DOMAIN hist : Signal(hist)[t] > 0})
====
