---- MODULE Oscillatory ----
(* Networks described by differential or difference equations, followed step by step from recorded states (10^-4).                                       *)
(*  Chaotic (CNN): y_i' = sum_j w_ij (1 - 2 y_j^2) / sum_j w_ij over all neurons or over the edges of the Delaunay triangulation,                          *)
(*                 w = exp(-d^2 / 2a), a the average distance to the nearest neighbours.                                                                   *)
(*  Hysteresis: x' = -x + sum of weighted outputs, the output becomes 1 when x exceeds 1 and -1 when it falls below -1, for the next step.                 *)
(*  LEGION: relaxation oscillators x, y with lateral potential p, coupled by dynamic weights and a global inhibitor z.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Tables

One == 10000
ExpQ(num, den) == LET k == (20 * num) \div den rem == 20 * num - k * den IN
    IF k >= 200 THEN 0 ELSE LET t == ExpTable[k + 1] d == (rem * 5000) \div den IN t - (t * d) \div 100000 + (t * ((d * d) \div 20000)) \div 1000000
RDiv(a, b) == (2 * a + b) \div (2 * b)
RECURSIVE IsqrtR(_, _, _)
IsqrtR(x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN IsqrtR(x, m, hi) ELSE IsqrtR(x, lo, m - 1)
Root(x) == IF x <= 21 THEN IsqrtR(x * 100000000, 0, 46340) ELSE LET r == IsqrtR(x * 1000000, 0, 46340) IN 10 * r + (5 * (x * 1000000 - r * r)) \div r      \* 10^4 sqrt(x), x <= 2000

(* ---- chaotic network ----------------------------------------------------------------------------------------------------------------------------------- *)
RECURSIVE SumLeast(_, _)
SumLeast(s, k) == IF k = 0 THEN 0 ELSE LET i == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j] IN s[i] + SumLeast([s EXCEPT ![i] = 100000000], k - 1)
AverageDistance(pts, k) == LET n == Len(pts) IN
    RDiv(SumSeq([i \in 1..n |-> SumLeast([j \in 1..n |-> IF i = j THEN 100000000 ELSE Root(Sq(pts[i], pts[j]))], k)]), k * n)
Weight(pts, avg, i, j) == ExpQ(Sq(pts[i], pts[j]) * 1000, RDiv(2 * avg, 10))
(* Delaunay edges of points in general position *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
InCircle(a, b, c, p) ==        \* p strictly inside the circle through a, b, c
    LET ax == a[1] - p[1] ay == a[2] - p[2] bx == b[1] - p[1] by == b[2] - p[2] cx == c[1] - p[1] cy == c[2] - p[2]
        det == (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay)
    IN IF Cross(a, b, c) > 0 THEN det > 0 ELSE det < 0
Triangles(pts) == LET n == Len(pts) IN {{t[1], t[2], t[3]} : t \in {t \in (1..n) \X (1..n) \X (1..n) : t[1] < t[2] /\ t[2] < t[3] /\ Cross(pts[t[1]], pts[t[2]], pts[t[3]]) # 0
                     /\ \A q \in 1..n : q \in {t[1], t[2], t[3]} \/ ~InCircle(pts[t[1]], pts[t[2]], pts[t[3]], pts[q])}}
Delaunay(pts) == {e \in (1..Len(pts)) \X (1..Len(pts)) : e[1] # e[2] /\ \E t \in Triangles(pts) : {e[1], e[2]} \subseteq t}
Everything(pts) == {e \in (1..Len(pts)) \X (1..Len(pts)) : e[1] # e[2]}
Logistic(v) == One - RDiv(2 * v * v, One)
Weights(pts, avg, E) == [e \in E |-> Weight(pts, avg, e[1], e[2])]
Chaos(W, n, y) == [i \in 1..n |-> LET js == {j \in 1..n : <<i, j>> \in DOMAIN W}
                                  s == SumOver(js, [j \in js |-> W[<<i, j>>]])
                                  v == SumOver(js, [j \in js |-> W[<<i, j>>] * Logistic(y[j])])
                              IN IF s = 0 THEN 0 ELSE v \div s]

(* ---- hysteresis network: weights in 10^-3 units of outputs -------------------------------------------------------------------------------------------------- *)
Impact(own, neigh, nb, out, i) == own * out[i] + neigh * SumOver(nb[i], [j \in nb[i] |-> out[j]])       \* 10^-4
(* colouring of a graph g: w_ii = -alpha - eps, w_ij = -alpha g_ij / (sum of row i)                                                                          *)
GraphImpact(g, alpha, eps, out, i) == LET js == {j \in DOMAIN out : j # i /\ g[i][j] # 0} s == SumSeq(g[i]) IN
    -(alpha + eps) * out[i] - (IF js = {} THEN 0 ELSE RDiv(alpha * SumOver(js, [j \in js |-> g[i][j] * out[j]]), s))
Relax(x, goal, decay) == goal + RDiv((x - goal) * decay, One)          \* decay = 10^4 exp(-time)
(* outputs possible after a step from x to z with the state tending to goal *)
Relay(out, x, z, goal, tol) ==
    LET must == IF z < -One - tol /\ x < -One - tol THEN {-1} ELSE IF z > One + tol /\ x > One + tol THEN {1} ELSE {}
        top == MaxOf({x, z, goal}) bot == MinOf({x, z, goal})
    IN IF must # {} THEN must
       ELSE IF x > One + tol /\ bot >= -One + tol THEN {1}
       ELSE IF x < -One - tol /\ top <= One - tol THEN {-1}
       ELSE {out} \cup (IF top > One - tol THEN {1} ELSE {}) \cup (IF bot < -One + tol THEN {-1} ELSE {})

(* ---- LEGION, parameters in 10^-4 ---------------------------------------------------------------------------------------------------------------------------- *)
Step(v) == IF v > 0 THEN 1 ELSE 0
(* possible values of the step function of v known up to t *)
StepRange(v, t) == <<IF v > t THEN 1 ELSE 0, IF v > -t THEN 1 ELSE 0>>
DynamicWeight(P, nb, st, i) == LET k == Cardinality({j \in nb[i] : st[j] > 0}) IN IF nb[i] = {} \/ st[i] <= 0 \/ k = 0 THEN 0 ELSE RDiv(P.Wt, k)
Sigma(P, xs, t) == LET r == [i \in DOMAIN xs |-> StepRange(xs[i] - P.zx, t)] IN <<MaxOf({r[i][1] : i \in DOMAIN xs}), MaxOf({r[i][2] : i \in DOMAIN xs})>>
(* coupling of oscillator i determined by states xs and inhibitor z, as an interval *)
CouplingOf(P, nb, st, xs, z, i) ==
    LET w == DynamicWeight(P, nb, st, i)
        r == [j \in nb[i] |-> StepRange(xs[j] - P.tx, 3)]
        q == StepRange(z - P.xz, 3)
    IN <<w * SumOver(nb[i], [j \in nb[i] |-> r[j][1]]) - P.Wz * q[2], w * SumOver(nb[i], [j \in nb[i] |-> r[j][2]]) - P.Wz * q[1]>>
Cube(x) == LET u == RDiv(x, 10) IN RDiv(RDiv(u * u, 1000) * u, 100)            \* 10^4 x^3, |x| < 4.5
Tanh(x, b) == LET e == ExpQ(2 * Abs(x), b) v == RDiv((One - e) * One, One + e) IN IF x < 0 THEN -v ELSE v
Drift(x) == 3 * x - Cube(x) + 2 * One

(* ---- transition system ---------------------------------------------------------------------------------------------------------------------------------------- *)
CONSTANTS Modes, Side, Values, Steps
VARIABLES mode, pts, out, x, prev, t, goal0
vars == <<mode, pts, out, x, prev, t, goal0>>
Cells == {<<a, b>> : a, b \in 0..Side}
Lex(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Triples == {s \in [1..3 -> Cells] : Lex(s[1], s[2]) /\ Lex(s[2], s[3])}
Quads == {s \in [1..4 -> Cells] : Lex(s[1], s[2]) /\ Lex(s[2], s[3]) /\ Lex(s[3], s[4])}
General(s) == /\ \A a, b, c \in DOMAIN s : Cardinality({a, b, c}) = 3 => Cross(s[a], s[b], s[c]) # 0
              /\ \A a, b, c, e \in DOMAIN s : Cardinality({a, b, c, e}) = 4 => InCircle(s[a], s[b], s[c], s[e]) \/ InCircle(s[a], s[b], s[e], s[c]) \/ InCircle(s[b], s[c], s[e], s[a]) \/ InCircle(s[a], s[c], s[e], s[b])
Init == /\ mode \in Modes /\ t = 0
        /\ \/ mode \in {"all", "delaunay"} /\ pts \in {s \in Triples : mode = "all" \/ General(s)} /\ x \in [1..3 -> {v \in Values : v <= One}] /\ out = <<>>
           \/ mode = "hyst" /\ pts = <<>> /\ x \in [1..2 -> Values] /\ out \in [1..2 -> {-1, 1}]
           \/ mode = "inhibitor" /\ pts = <<>> /\ x = <<0>> /\ out \in [1..2 -> {0, 1}]
        /\ prev = x /\ goal0 = x
HN == [i \in 1..2 |-> {3 - i}]
Next == /\ t < Steps /\ t' = t + 1 /\ prev' = x
        /\ CASE mode = "all" -> x' = Chaos(Weights(pts, AverageDistance(pts, 1), Everything(pts)), 3, x) /\ UNCHANGED <<out, goal0>>
             [] mode = "delaunay" -> x' = Chaos(Weights(pts, AverageDistance(pts, 1), Delaunay(pts)), 3, x) /\ UNCHANGED <<out, goal0>>
             [] mode = "hyst" -> LET g == [i \in 1..2 |-> Impact(-40000, -10000, HN, out, i)] z == [i \in 1..2 |-> Relax(x[i], g[i], 6065)] IN
                                 x' = z /\ goal0' = g /\ \E o \in [1..2 -> {-1, 1}] : (\A i \in 1..2 : o[i] \in Relay(out[i], x[i], z[i], g[i], 0)) /\ out' = o
             [] mode = "inhibitor" -> \E o \in [1..2 -> {0, 1}] : out' = o /\ goal0' = <<One * MaxOf(Range(out))>> /\ x' = <<Relax(x[1], One * MaxOf(Range(out)), 9418)>>
        /\ UNCHANGED <<mode, pts>>
Spec == Init /\ [][Next]_vars
Bounded == CASE mode \in {"all", "delaunay"} -> \A i \in DOMAIN x : Abs(x[i]) <= One + 20
             [] mode = "hyst" -> \A i \in 1..2 : Abs(x[i]) <= MaxOf({Abs(v) : v \in Values}) + 50001
             [] OTHER -> x[1] \in 0..One
(* equal outputs stay equal and follow the logistic map *)
Common == [][(mode \in {"all", "delaunay"} /\ (\A i, j \in DOMAIN x : x[i] = x[j]) => \A i \in DOMAIN x : Abs(x'[i] - Logistic(x[1])) <= 20)]_vars
(* a state moves monotonically toward its goal, an output changes only if the state can pass the threshold *)
Monotone == [][mode = "hyst" => \A i \in 1..2 : /\ x'[i] \in MinOf({x[i], goal0'[i]})..MaxOf({x[i], goal0'[i]})
                                              /\ (out'[i] # out[i] => MaxOf({Abs(x[i]), Abs(goal0'[i])}) >= One)]_vars
TowardSigma == [][mode = "inhibitor" => Abs(goal0'[1] - x'[1]) <= Abs(goal0'[1] - x[1])]_vars
(* a triangulation: number of edges by Euler, no crossings, contains the nearest neighbour of every point *)
Seen(s, a, b, c, e) == Cross(s[a], s[b], s[c]) * Cross(s[a], s[b], s[e]) < 0 /\ Cross(s[c], s[e], s[a]) * Cross(s[c], s[e], s[b]) < 0
Hull(s) == {a \in DOMAIN s : \E b \in DOMAIN s \ {a} : \A c, e \in DOMAIN s \ {a, b} : Cross(s[a], s[b], s[c]) * Cross(s[a], s[b], s[e]) > 0}
Planar == \A s \in {s \in Quads : General(s)} : LET E == Delaunay(s) IN
    /\ Cardinality(E) = 2 * (3 * 4 - 3 - Cardinality(Hull(s)))
    /\ \A e, f \in E : Cardinality({e[1], e[2], f[1], f[2]}) = 4 => ~Seen(s, e[1], e[2], f[1], f[2])
    /\ \A a \in DOMAIN s : \E b \in DOMAIN s \ {a} : <<a, b>> \in E /\ \A c \in DOMAIN s \ {a} : Sq(s[a], s[b]) <= Sq(s[a], s[c])
ASSUME Planar
ASSUME \A v \in {1, 2, 5, 21, 22, 100, 777, 1999} : LET r == Root(v) IN Abs(RDiv(r, 100) * RDiv(r, 100) - v * One) <= RDiv(r, 50) + 1
(* weights of a colouring network: the outputs of all neighbours together weigh as much as the own output without eps *)
ASSUME \A n \in 2..4 : \A a \in {5000, 12000} : \A o \in [1..n -> {-1, 1}] : LET g == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE 1]] IN
    \A i \in 1..n : LET v == GraphImpact(g, a, 3000, o, i) IN v \in -(2 * a + 3000)..(2 * a + 3000) /\ ((\A j \in 1..n : o[j] = o[i]) => v = -o[i] * (2 * a + 3000))
====
