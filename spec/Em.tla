---- MODULE Em ----
(* Expectation-maximisation for a Gaussian mixture.  E: the responsibility of component k for an object is its weighted density divided by   *)
(* the sum over the components.  M: weight, mean and covariance are those of the objects weighted by the responsibilities.                  *)
EXTENDS Integers, Sequences, FiniteSets, Geom, Rational, Tables

(* covariance in 1 or 2 dimensions as <<a>> or <<a, b, c>> (symmetric a b / b c), integers; delta: integers over a common denominator d *)
Det(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] * s[3] - s[2] * s[2]
Norm2(s) == IF Len(s) = 1 THEN s[1] * s[1] ELSE s[1] * s[1] + 2 * s[2] * s[2] + s[3] * s[3]
QNum(s, u) == IF Len(s) = 1 THEN u[1] * u[1] ELSE s[3] * u[1] * u[1] - 2 * s[2] * u[1] * u[2] + s[1] * u[2] * u[2]
(* 10^4 times ln of the density up to a common constant, for an integer covariance and a mean [v, d] *)
LogDensity(p, m, s) == LET u == [i \in DOMAIN p |-> m.d * p[i] - m.v[i]] IN -(Ln(Det(s)) \div 2) - (5000 * QNum(s, u)) \div (Det(s) * m.d * m.d)
(* the same with the Frobenius norm of the covariance in the place of its determinant *)
LogDensityNorm(p, m, s) == LogDensity(p, m, s) + Ln(Det(s)) \div 2 - Ln(Norm2(s)) \div 4
(* one dimension, fixed point 10^4: mean, variance *)
LogDensity1(x, mean, var) == LET u == Abs(x * 100 - mean \div 100) IN -(Ln(var) \div 2) - (5 * ((1000 * u * u) \div var))

(* ---- transition system: two components in one dimension, fixed point 10^3 ---------------------------------------------------- *)
CONSTANTS MaxN, MaxCoord, Steps
VARIABLES pts, mean, var, w, r, like, step
vars == <<pts, mean, var, w, r, like, step>>
Comp == {1, 2}
Init == /\ \E n \in 3..MaxN : pts \in [1..n -> 0..MaxCoord] /\ \A i \in 1..(n - 1) : pts[i] <= pts[i + 1]
        /\ mean \in [Comp -> {1000 * x : x \in 0..MaxCoord}] /\ mean[1] < mean[2] /\ var = [k \in Comp |-> 1000] /\ w = [k \in Comp |-> 500]
        /\ r = <<>> /\ like = -1000000 /\ step = 0
(* 10^4 times the weighted density without the constant *)
G(i, k) == LET u == Abs(1000 * pts[i] - mean[k]) IN (w[k] * ExpNeg((u * u) \div (2 * var[k]))) \div Isqrt(1000 * var[k])
Mix(i) == G(i, 1) + G(i, 2)
Usable == (\A k \in Comp : var[k] >= 200 /\ w[k] >= 50) /\ \A i \in DOMAIN pts : Mix(i) >= 200
EStep == /\ step % 2 = 0 /\ step < 2 * Steps /\ Usable /\ step' = step + 1
         /\ r' = [i \in DOMAIN pts |-> <<(1000 * G(i, 1)) \div Mix(i), 1000 - (1000 * G(i, 1)) \div Mix(i)>>]
         /\ like' = SumSeq([i \in DOMAIN pts |-> Ln(Mix(i))])
         /\ UNCHANGED <<pts, mean, var, w>>
Mass(k) == SumSeq([i \in DOMAIN pts |-> r[i][k]])
MStep == /\ step % 2 = 1 /\ step' = step + 1 /\ \A k \in Comp : Mass(k) > 0
         /\ w' = [k \in Comp |-> Mass(k) \div Len(pts)]
         /\ mean' = [k \in Comp |-> (1000 * SumSeq([i \in DOMAIN pts |-> r[i][k] * pts[i]])) \div Mass(k)]
         /\ var' = [k \in Comp |-> LET m == (1000 * SumSeq([i \in DOMAIN pts |-> r[i][k] * pts[i]])) \div Mass(k) IN
                        SumSeq([i \in DOMAIN pts |-> (r[i][k] * (((1000 * pts[i] - m) * (1000 * pts[i] - m)) \div 1000)) \div 1]) \div Mass(k)]
         /\ UNCHANGED <<pts, r, like>>
Next == EStep \/ MStep
Spec == Init /\ [][Next]_vars
Distribution == \A i \in DOMAIN r : r[i][1] + r[i][2] = 1000 /\ r[i][1] \in 0..1000
Weights == Abs(w[1] + w[2] - 1000) <= 2
Hull == \A k \in Comp : mean[k] \in (1000 * pts[1] - 1000 * (IF step < 2 THEN MaxCoord ELSE 0))..(1000 * pts[Len(pts)] + 1000 * (IF step < 2 THEN MaxCoord ELSE 0))
(* an iteration never makes the data less likely (up to rounding) *)
LikelihoodGrows == [][step % 2 = 0 /\ step > 0 => like' >= like - 400 * Len(pts)]_vars
====
