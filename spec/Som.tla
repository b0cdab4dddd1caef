---- MODULE Som ----
(* Kohonen map on a grid of neurons.  A pattern is won by a closest neuron; the winner moves toward it by the learning rate, the neurons connected  *)
(* to the winner (or, with the neighbourhood function, all neurons) within the radius on the grid by the rate reduced by the influence; radius and  *)
(* rate decay by epochs.  In the last epoch (in every one with automatic stop) neurons are awarded by the patterns they win.                         *)
(* Weights are fixed point 10^4.                                                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational, Tables

Cell(i, cols) == <<i \div cols, i % cols>>
Grid2(i, j, cols) == Sq(Cell(i, cols), Cell(j, cols))
Linked(type, cols, i, j) ==
    LET a == Cell(i, cols) b == Cell(j, cols) dr == Abs(a[1] - b[1]) dc == b[2] - a[2] IN
    CASE type = "four" -> dr + Abs(dc) = 1
      [] type = "eight" -> i # j /\ dr <= 1 /\ Abs(dc) <= 1
      [] type = "honey" -> \/ dr = 0 /\ Abs(dc) = 1
                           \/ dr = 1 /\ dc \in (IF a[1] % 2 = 0 THEN {0, 1} ELSE {-1, 0})
      [] type = "func" -> FALSE
Links(type, rows, cols, i) == {j \in 0..(rows * cols - 1) : Linked(type, cols, i, j)}
(* radius by default, in tenths *)
DefaultRadius(rows, cols) == IF rows + cols > 4 THEN 20 ELSE IF rows > 1 /\ cols > 1 THEN 15 ELSE 10

(* 10^4 exp(-num / den) *)
ExpQ(num, den) == LET k == (20 * num) \div den rem == 20 * num - k * den IN
    IF k >= 200 THEN 0 ELSE LET t == ExpTable[k + 1] d == (rem * 5000) \div den IN t - (t * d) \div 100000 + (t * ((d * d) \div 20000)) \div 1000000
RDiv(a, b) == (2 * a + b) \div (2 * b)
(* squared local radius (10^4) and rate (10^4) of epoch e of n; r0 in tenths, rate in thousandths *)
Radius2(r0, e, n) == (r0 * r0 * ExpQ(2 * e, n)) \div 100
Rate(r, e, n) == RDiv(r * ExpQ(e, n), 1000)
Influence(d2, rad) == IF rad > 200000 THEN ExpQ(d2 * 1000, rad \div 5) ELSE ExpQ(d2 * 10000, 2 * rad)
(* by how much (10^4) of the way to the pattern neuron j moves when w wins *)
Share(type, cols, w, j, rad, rate) ==
    LET d2 == Grid2(w, j, cols) IN
    IF type = "func" THEN (IF d2 * 10000 < rad THEN RDiv(rate * Influence(d2, rad), 10000) ELSE 0)
    ELSE IF j = w THEN rate
    ELSE IF Linked(type, cols, w, j) /\ d2 * 10000 < rad THEN RDiv(rate * Influence(d2, rad), 10000) ELSE 0
Shares(type, rows, cols, w, rad, rate) == [j \in 1..(rows * cols) |-> Share(type, cols, w, j - 1, rad, rate)]
Shift(v, x, k) == IF k = 0 THEN v ELSE [d \in DOMAIN v |-> v[d] + RDiv(k * (x[d] - v[d]), 10000)]
Adapt(wts, x, sh) == [j \in DOMAIN wts |-> Shift(wts[j], x, sh[j])]
(* distance in 10^-3 *)
Far2(v, x) == SumSeq([d \in DOMAIN v |-> LET u == (v[d] - x[d] + 5) \div 10 IN u * u])
Far(v, x) == Isqrt(Far2(v, x))
RECURSIVE Least(_, _, _)
Least(f, k, m) == IF k = 0 THEN m ELSE Least(f, k - 1, IF f[k] < m THEN f[k] ELSE m)
Closest(wts, x, tol) == LET f == [j \in 1..Len(wts) |-> Far2(wts[j], x)] m == Isqrt(Least(f, Len(wts), f[Len(wts)])) + 1 + tol lim == m * m IN {j \in DOMAIN wts : f[j] <= lim}
(* uniform grid over the extremes lo..hi of the data *)
Spread(lo, hi, k, n) == IF n > 1 THEN lo + RDiv((hi - lo) * k, n - 1) ELSE RDiv(lo + hi, 2)
UniformGrid(rows, cols, lo, hi) == [j \in 1..(rows * cols) |-> [d \in DOMAIN lo |->
    IF d = 1 THEN Spread(lo[d], hi[d], Cell(j - 1, cols)[1], rows) ELSE IF d = 2 THEN Spread(lo[d], hi[d], Cell(j - 1, cols)[2], cols) ELSE RDiv(lo[d] + hi[d], 2)]]
Lows(x) == [d \in DOMAIN x[1] |-> MinOf({x[i][d] : i \in DOMAIN x})]
Highs(x) == [d \in DOMAIN x[1] |-> MaxOf({x[i][d] : i \in DOMAIN x})]
Change(a, b) == MaxOf({0} \cup UNION {{Abs(a[j][d] - b[j][d]) : d \in DOMAIN a[j]} : j \in DOMAIN a})

(* ---- transition system ---------------------------------------------------------------------------------------------------------- *)
CONSTANTS MaxRows, MaxCols, MaxN, MaxCoord, Epochs, Types
VARIABLES shape, pats, wts, e, i, caught
vars == <<shape, pats, wts, e, i, caught>>
Init == /\ \E r \in 1..MaxRows, c \in 1..MaxCols, t \in Types, r0 \in {10, 20, 35} : shape = [r |-> r, c |-> c, t |-> t, r0 |-> r0]
        /\ \E n \in 1..MaxN : pats \in [1..n -> {<<10000 * x>> : x \in 0..MaxCoord}]
        /\ wts = UniformGrid(shape.r, shape.c, Lows(pats), Highs(pats)) /\ e = 1 /\ i = 1 /\ caught = [j \in 1..(shape.r * shape.c) |-> {}]
Present(w) == /\ e <= Epochs /\ i <= Len(pats) /\ w \in Closest(wts, pats[i], 0 - 1)
              /\ wts' = Adapt(wts, pats[i], Shares(shape.t, shape.r, shape.c, w - 1, Radius2(shape.r0, e, Epochs), Rate(500, e, Epochs)))
              /\ caught' = IF e = Epochs THEN [caught EXCEPT ![w] = @ \cup {i}] ELSE caught
              /\ IF i = Len(pats) THEN i' = 1 /\ e' = e + 1 ELSE i' = i + 1 /\ e' = e
              /\ UNCHANGED <<shape, pats>>
Next == \E w \in DOMAIN wts : Present(w)
Spec == Init /\ [][Next]_vars
Symmetric == \A a, b \in 0..(shape.r * shape.c - 1) : Linked(shape.t, shape.c, a, b) <=> Linked(shape.t, shape.c, b, a)
Degrees == \A a \in 0..(shape.r * shape.c - 1) : Cardinality(Links(shape.t, shape.r, shape.c, a)) <= (CASE shape.t = "four" -> 4 [] shape.t = "eight" -> 8 [] shape.t = "honey" -> 6 [] shape.t = "func" -> 0)
Hull == \A j \in DOMAIN wts : wts[j][1] \in (Lows(pats)[1] - 1)..(Highs(pats)[1] + 1)
CaughtAll == e > Epochs => (UNION {caught[j] : j \in DOMAIN caught} = DOMAIN pats /\ SumSeq([j \in DOMAIN caught |-> Cardinality(caught[j])]) = Len(pats))
Toward == [][\A j \in DOMAIN wts : Far(wts'[j], pats[i]) <= Far(wts[j], pats[i]) + 1]_vars
Locality == [][\E w \in DOMAIN wts : \A j \in DOMAIN wts : wts'[j] # wts[j] => j = w \/ ((shape.t # "func" => Linked(shape.t, shape.c, w - 1, j - 1)) /\ Grid2(w - 1, j - 1, shape.c) * 10000 < Radius2(shape.r0, e, Epochs))]_vars
(* the order is only bent, not torn: the influence decreases with the distance on the grid *)
Decreasing == \A w \in 0..(shape.r * shape.c - 1) : LET s == Shares("func", shape.r, shape.c, w, Radius2(shape.r0, 1, Epochs), 5000) IN
    \A a, b \in DOMAIN s : Grid2(w, a - 1, shape.c) <= Grid2(w, b - 1, shape.c) => s[a] >= s[b]
====
