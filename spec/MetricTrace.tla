---- MODULE MetricTrace ----
(* m: kind, deg, range; data: the data the range of Gower comes from (or empty); numpy: how the object starts;                      *)
(* ev: op "enable" | "disable" | "copy" | "other" | "call" with form, a, b (points or lists of points), w (distances, 1/10000).      *)
EXTENDS TraceBase, Geom
M == INSTANCE Metric WITH Below <- 0, Hi <- 0, Kinds <- {}, obj <- [kind |-> ""], cp <- [kind |-> ""], p <- <<>>, q <- <<>>, hist <- 0
VARIABLES tid, l, numpy, cnumpy, why, signed
vars == <<tid, l, numpy, cnumpy, why, signed>>
T == Traces[tid]
Rule(t) == [t.m EXCEPT !.range = IF t.data = <<>> THEN @ ELSE M!RangeOf(t.data)]
(* a: list of points, b: list of points, one of them of length one or both of equal length *)
Pairs(e) == LET n == Max2(Len(e.a), Len(e.b)) IN [i \in 1..n |-> <<e.a[IF Len(e.a) = 1 THEN 1 ELSE i], e.b[IF Len(e.b) = 1 THEN 1 ELSE i]>>]
CallWhy(t, e) == LET ps == Pairs(e) r == Rule(t) IN
    IF Len(e.w) # Len(ps) THEN "not one distance for every pair"
    ELSE IF \E i \in DOMAIN ps : ~M!Value(r, ps[i][1], ps[i][2], e.w[i]) /\ ~(T.py /\ e.form = "pp" /\ ~numpy /\ M!SignLost(r, ps[i][1], ps[i][2], e.w[i])) THEN "distance is not that of the definition (" \o r.kind \o ")"
    ELSE ""
SignedCall(t, e) == e.op = "call" /\ LET ps == Pairs(e) IN \E i \in DOMAIN ps : ~M!Value(Rule(t), ps[i][1], ps[i][2], e.w[i])
Init == tid \in 1..NTraces /\ l = 1 /\ numpy = Traces[tid].numpy /\ cnumpy = Traces[tid].numpy /\ why = "" /\ signed = FALSE
Step == /\ l > 0 /\ why = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN
           /\ numpy' = CASE e.op = "enable" -> TRUE [] e.op = "disable" -> FALSE [] e.op = "other" -> cnumpy [] OTHER -> numpy
           /\ cnumpy' = CASE e.op \in {"copy", "other"} -> numpy [] OTHER -> cnumpy
           /\ why' = IF e.op # "call" THEN "" ELSE IF e.form # "pp" /\ ~numpy THEN "driver: matrix without numpy" ELSE CallWhy(T, e)
        /\ signed' = (why' = "" /\ (signed \/ SignedCall(T, T.ev[l])))      \* a deviation CallWhy lets pass
        /\ l' = l + 1 /\ UNCHANGED tid
End == /\ l > 0 /\ (why # "" \/ l > Len(T.ev)) /\ l' = -2 /\ UNCHANGED <<tid, numpy, cnumpy, why, signed>>
       /\ Verdict(tid, l - 1, IF why # "" THEN why ELSE IF ~T.untouched THEN "arguments modified"
                         ELSE IF signed THEN "pure Python Minkowski distance of an odd degree keeps the signs of differences" ELSE "")
Next == Step \/ End
Spec == Init /\ [][Next]_vars
====
