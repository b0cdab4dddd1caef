---- MODULE Ensembles ----
(* Synchronous ensembles contained in the recorded dynamic of a network.                                                                                *)
(*  - by the last complete spike: a trailing activity is skipped (it is not complete), the spike ends with the last state above the threshold and        *)
(*    starts after the last state below it; oscillators whose middles of spikes are within the tolerance of the first one's width belong together;      *)
(*  - by the last spikes of given number (analyser of the C++ core), compared by duration and position;                                                  *)
(*  - by equal patterns of positive outputs during the last steps.                                                                                       *)
(* d[t] is a state (a sequence over oscillators), t = 1 is the initial one; reported times are t - 1.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Geom

(* ---- last complete spike of oscillator i: <<start, end>> (times), or none -------------------------------------------------------------------------- *)
None == <<>>
Trail(d, i, thr) ==             \* the last state that may belong to a complete spike, 0: none
    LET T == Len(d) low == {t \in 1..T : d[t][i] <= thr} IN
    IF d[T][i] <= thr THEN T ELSE IF low = {} THEN 0 ELSE IF MaxOf(low) = 1 THEN 0 ELSE MaxOf(low)
LastSpike(d, i, thr) ==
    LET high == {t \in 2..Trail(d, i, thr) : d[t][i] > thr} IN
    IF high = {} THEN None
    ELSE LET e == MaxOf(high) low == {t \in 2..e : d[t][i] < thr} IN <<IF low = {} THEN 0 ELSE MaxOf(low) - 1, e - 1>>
(* distance of middles against tolerance tol (hundredths) of the width of spike a: -1 within, 0 at the boundary, 1 outside *)
Near(a, b, tol) == LET x == 100 * Abs((a[1] + a[2]) - (b[1] + b[2])) y == 2 * tol * (a[2] - a[1]) IN IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1

(* ---- the last m spikes as the analyser of the core extracts them, the latest first ------------------------------------------------------------------- *)
Down(d, i, p, S(_)) == LET s == {t \in 1..p : S(d[t][i])} IN IF s = {} THEN 1 ELSE MaxOf(s)
SpikeFrom(d, i, thr, p) ==      \* <<begin, stop>> 1-based or none
    LET Low(v) == v < thr High(v) == v >= thr
        a == IF High(d[p][i]) THEN Down(d, i, p, Low) ELSE p
        b == IF High(d[p][i]) /\ a = 1 THEN 1 ELSE Down(d, i, a, High)
        c == {t \in 1..b : Low(d[t][i])}
    IN IF b = 1 \/ c = {} THEN None ELSE <<MaxOf(c), b>>
RECURSIVE SpikesR(_, _, _, _, _)
SpikesR(d, i, thr, p, m) == IF m = 0 \/ p <= 1 THEN <<>> ELSE LET s == SpikeFrom(d, i, thr, p) IN IF s = None THEN <<>> ELSE <<s>> \o SpikesR(d, i, thr, s[1], m - 1)
Spikes(d, i, thr, m) == SpikesR(d, i, thr, Len(d), m)
Dur(s) == s[2] - s[1]
Cmp(x, y) == IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1
Alike(s, a, tol) == Max2(Cmp(100 * Abs(Dur(s) - Dur(a)), tol * Dur(s)), Cmp(100 * (Abs(s[1] - a[1]) + Abs(s[2] - a[2])), tol * Dur(s)))
AlikeAll(S, A, tol) == MaxOf({-1} \cup {Alike(S[j], A[j], tol) : j \in DOMAIN S})

(* ---- patterns ------------------------------------------------------------------------------------------------------------------------------------------ *)
Positive(v) == IF v > 0 THEN 1 ELSE 0
Observation(d) == [t \in DOMAIN d |-> [i \in DOMAIN d[1] |-> Positive(d[t][i])]]
SamePattern(d, k, i, j) == \A t \in (Len(d) - Min2(k, Len(d)) + 1)..Len(d) : Positive(d[t][i]) = Positive(d[t][j])

(* ---- an answer: ordered groups, members ascending, every oscillator of the set once; rel(anchor, x): -1 joins, 0 may join, 1 does not ---------------------- *)
Orderly(ans, S) == /\ UNION {Range(ans[e]) : e \in DOMAIN ans} = S /\ SumSeq([e \in DOMAIN ans |-> Len(ans[e])]) = Cardinality(S)
                   /\ \A e \in DOMAIN ans : ans[e] # <<>> /\ \A k \in 2..Len(ans[e]) : ans[e][k - 1] < ans[e][k]
                   /\ \A e \in 2..Len(ans) : ans[e - 1][1] < ans[e][1]
FirstFit(ans, rel) == \A e \in DOMAIN ans : \A k \in DOMAIN ans[e] : LET x == ans[e][k] IN
                   /\ k > 1 => rel[<<ans[e][1], x>>] <= 0
                   /\ \A f \in 1..(e - 1) : ans[f][1] < x => rel[<<ans[f][1], x>>] >= 0

(* ---- transition system: states are recorded one after another, a detector follows every oscillator -------------------------------------------------------- *)
CONSTANTS N, MaxT, Thr
VARIABLES d, det
vars == <<d, det>>
Init == d = <<>> /\ det = [i \in 1..N |-> [low |-> 0, pend |-> None, done |-> None]]
See(s, t, v) == IF v > Thr THEN [s EXCEPT !.pend = IF t >= 2 THEN <<s.low, t - 1>> ELSE None]
                ELSE [low |-> IF v < Thr /\ t >= 2 THEN t - 1 ELSE s.low, pend |-> None, done |-> IF s.pend # None THEN s.pend ELSE s.done]
Record(x) == /\ Len(d) < MaxT /\ d' = Append(d, x) /\ det' = [i \in 1..N |-> See(det[i], Len(d) + 1, x[i])]
Next == \E x \in [1..N -> {Thr - 1, Thr, Thr + 1}] : Record(x)
Spec == Init /\ [][Next]_vars
(* the online detector and the definition agree *)
Detected == d # <<>> => \A i \in 1..N : LastSpike(d, i, Thr) = det[i].done
(* spikes of the core: separated, in order; without states exactly at the threshold the first agrees with the last complete spike of a trace that starts low *)
CoreSpikes == d # <<>> => \A i \in 1..N : LET s == Spikes(d, i, Thr, MaxT) IN
    /\ \A k \in DOMAIN s : s[k][1] < s[k][2] /\ d[s[k][1]][i] < Thr /\ (\A t \in (s[k][1] + 1)..s[k][2] : d[t][i] >= Thr) /\ (k > 1 => s[k][2] < s[k - 1][1] + 1)
    /\ \A m \in 0..2 : Spikes(d, i, Thr, m) = SubSeq(s, 1, Min2(m, Len(s)))
    /\ ((\A t \in DOMAIN d : d[t][i] # Thr) /\ d[1][i] < Thr /\ s # <<>>) => <<s[1][1] - 1, s[1][2] - 1>> = LastSpike(d, i, Thr)
(* equal histories are synchronous at every tolerance *)
Reflexive == d # <<>> => \A i, j \in 1..N : (\A t \in DOMAIN d : d[t][i] = d[t][j]) /\ LastSpike(d, i, Thr) # None => Near(LastSpike(d, i, Thr), LastSpike(d, j, Thr), 10) = -1
====
