---- MODULE Metric ----
(* Distance metrics by definition (exact fractions; roots by comparison of powers) and the life of a metric object: switching   *)
(* between numpy and pure Python, copying; the distance never depends on that history.                                         *)
EXTENDS Integers, Sequences, FiniteSets, Geom

RECURSIVE AddUp(_, _)                            \* sum of fractions <<n, d>>
AddUp(s, i) == IF i = 0 THEN <<0, 1>> ELSE LET r == AddUp(s, i - 1) IN <<r[1] * s[i][2] + s[i][1] * r[2], r[2] * s[i][2]>>
Frac(s) == AddUp(s, Len(s))
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Canberra(p, q) == Frac([i \in DOMAIN p |-> LET d == Abs(p[i]) + Abs(q[i]) IN IF d = 0 THEN <<0, 1>> ELSE <<Abs(p[i] - q[i]), d>>])
ChiSquare(p, q) == Frac([i \in DOMAIN p |-> LET d == Abs(p[i]) + Abs(q[i]) IN IF d = 0 THEN <<0, 1>> ELSE <<(p[i] - q[i]) * (p[i] - q[i]), d>>])
Gower(p, q, r) == LET f == Frac([i \in DOMAIN p |-> IF r[i] = 0 THEN <<0, 1>> ELSE <<Abs(p[i] - q[i]), r[i]>>]) IN <<f[1], f[2] * Len(p)>>
RangeOf(data) == [k \in DOMAIN data[1] |-> MaxOf({data[i][k] : i \in DOMAIN data}) - MinOf({data[i][k] : i \in DOMAIN data})]
Weighted(p, q) == SumSeq([i \in DOMAIN p |-> i * Abs(p[i] - q[i])])              \* a user's own rule
(* Minkowski of degree a/b: differences are b-th powers of integers, so v^a = S^b with S the sum of the a-th powers of the roots *)
RootOf(x, b) == IF b = 1 THEN x ELSE CHOOSE r \in 0..x : r * r = x
MinkSum(p, q, a, b) == SumSeq([i \in DOMAIN p |-> Pow(RootOf(Abs(p[i] - q[i]), b), a)])
(* w, in 1/10000, is the distance *)
Fits(w, f) == Abs(w * f[2] - f[1] * 10000) <= f[2]
Powers(w, S, a, b, sc, per) == LET v == w \div per IN /\ Pow(Max2(v - 1, 0), a) <= Pow(S, b) * Pow(sc, a)
                                                     /\ Pow(S, b) * Pow(sc, a) <= Pow(v + 2, a)
(* known defect of the pure Python Minkowski distance: odd powers keep the sign of the difference (the root of a negative sum is not *)
(* a real number unless the degree is 1; powers that are not whole are not real either)                                               *)
Signed(p, q) == SumSeq([i \in DOMAIN p |-> p[i] - q[i]])
Signed3(p, q) == SumSeq([i \in DOMAIN p |-> Pow(p[i] - q[i], 3)])
NotReal == {2000000002, 2000000003}
SignLost(m, p, q, w) == m.kind = "minkowski" /\ (\E i \in DOMAIN p : p[i] < q[i]) /\
    CASE m.deg = <<1, 1>> -> w = 10000 * Signed(p, q)
      [] m.deg = <<3, 1>> -> IF Signed3(p, q) < 0 THEN w \in NotReal ELSE w >= 0 /\ w < 1000000 /\ Powers(w, Signed3(p, q), 3, 1, 100, 100)
      [] m.deg[2] = 2 -> w \in NotReal
      [] OTHER -> FALSE
Value(m, p, q, w) == w >= 0 /\ w < (IF m.kind = "sq" THEN 4000000 ELSE 1000000) /\
    CASE m.kind = "sq" -> Fits(w, <<Sq(p, q), 1>>)
      [] m.kind = "euclid" -> Powers(w, Sq(p, q), 2, 1, 1000, 10)
      [] m.kind = "manhattan" -> Fits(w, <<Manhattan(p, q), 1>>)
      [] m.kind = "chebyshev" -> Fits(w, <<Chebyshev(p, q), 1>>)
      [] m.kind = "minkowski" -> IF m.deg[1] <= 2 THEN Powers(w, MinkSum(p, q, m.deg[1], m.deg[2]), m.deg[1], m.deg[2], 1000, 10)
                                 ELSE IF m.deg[1] = 3 THEN Powers(w, MinkSum(p, q, 3, m.deg[2]), 3, m.deg[2], 100, 100)
                                 ELSE Powers(w, MinkSum(p, q, m.deg[1], 1), m.deg[1], 1, 10, 1000)
      [] m.kind = "canberra" -> Fits(w, Canberra(p, q))
      [] m.kind = "chi" -> Fits(w, ChiSquare(p, q))
      [] m.kind = "gower" -> Fits(w, Gower(p, q, m.range))
      [] m.kind = "user" -> Fits(w, <<Weighted(p, q), 1>>)

(* ---- transition system: a pair of metric objects (an original and a copy) under switching and copying, over all pairs of points *)
CONSTANTS Below, Hi, Kinds
VARIABLES obj, cp, p, q, hist
vars == <<obj, cp, p, q, hist>>
Pts == [1..2 -> (-Below)..Hi]
New(k, n) == [kind |-> k, numpy |-> n]
Init == /\ \E k \in Kinds, n \in BOOLEAN : obj = New(k, n) /\ cp = New(k, n)
        /\ p \in Pts /\ q \in Pts /\ hist = 0
Enable == hist < 3 /\ obj' = [obj EXCEPT !.numpy = TRUE] /\ UNCHANGED <<cp, p, q>> /\ hist' = hist + 1
Disable == hist < 3 /\ obj' = [obj EXCEPT !.numpy = FALSE] /\ UNCHANGED <<cp, p, q>> /\ hist' = hist + 1
Copy == hist < 3 /\ cp' = obj /\ UNCHANGED <<obj, p, q>> /\ hist' = hist + 1
Next == Enable \/ Disable \/ Copy
Spec == Init /\ [][Next]_vars
Of(k, x, y) == CASE k = "sq" -> <<Sq(x, y), 1>> [] k = "manhattan" -> <<Manhattan(x, y), 1>> [] k = "chebyshev" -> <<Chebyshev(x, y), 1>>
                 [] k = "canberra" -> Canberra(x, y) [] k = "chi" -> ChiSquare(x, y) [] k = "gower" -> Gower(x, y, <<3, 0>>) [] k = "user" -> <<Weighted(x, y), 1>>
                 [] k = "cubic" -> <<MinkSum(x, y, 3, 1), 1>>
SameKind == obj.kind = cp.kind
Symmetric == LET a == Of(obj.kind, p, q) b == Of(obj.kind, q, p) IN a[1] * b[2] = b[1] * a[2]
NonNegative == Of(obj.kind, p, q)[1] >= 0 /\ Of(obj.kind, p, q)[2] > 0
ZeroForEqual == p = q => Of(obj.kind, p, q)[1] = 0
Separates == obj.kind \in {"sq", "manhattan", "chebyshev", "canberra", "chi", "user", "cubic"} /\ p # q => Of(obj.kind, p, q)[1] > 0
Ordered == Chebyshev(p, q) <= Manhattan(p, q) /\ Chebyshev(p, q) * Chebyshev(p, q) <= Sq(p, q) /\ Sq(p, q) <= Manhattan(p, q) * Manhattan(p, q)
Triangle == obj.kind \in {"manhattan", "chebyshev", "user"} => \A r \in Pts : Of(obj.kind, p, q)[1] <= Of(obj.kind, p, r)[1] + Of(obj.kind, r, q)[1]
Bounded == obj.kind = "canberra" => Canberra(p, q)[1] <= 2 * Canberra(p, q)[2]
====
