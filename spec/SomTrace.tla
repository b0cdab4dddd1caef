---- MODULE SomTrace ----
(* A trained map: rows, cols, type, r0 (tenths, 0: default), rate (thousandths), n epochs, autostop, thr (threshold, 10^4), pats (10^4), w0 and w    *)
(* (weights before and after), awards, caught, winners, ret (epochs made), sims (answers for the patterns and probes), um, dm (distance and density    *)
(* matrices), div.  Training is executed by the specification from w0; the winners of the last epoch are those recorded.                               *)
EXTENDS TraceBase, Geom, Rational
M == INSTANCE Som WITH MaxRows <- 0, MaxCols <- 0, MaxN <- 0, MaxCoord <- 0, Epochs <- 0, Types <- {}, shape <- <<>>, pats <- <<>>, wts <- <<>>, e <- 0, i <- 0, caught <- <<>>
VARIABLES tid, e, i, w, prev, c, br        \* br: number of behaviours so far (several neurons may be equally close)
vars == <<tid, e, i, w, prev, c, br>>
T == Traces[tid]
R0(t) == IF t.r0 = 0 THEN M!DefaultRadius(t.rows, t.cols) ELSE t.r0
Size(t) == t.rows * t.cols
InitWhy(t) ==
    LET lo == M!Lows(t.pats) hi == M!Highs(t.pats) IN
    IF Len(t.w0) # Size(t) \/ Len(t.w) # Size(t) THEN "number of neurons"
    ELSE IF \E v \in Range(t.w0) \cup Range(t.w) : Len(v) # Len(lo) THEN "dimension of weights"
    ELSE IF t.init = "grid" /\ M!Change(t.w0, M!UniformGrid(t.rows, t.cols, lo, hi)) > 1 THEN "initial weights are not the uniform grid"
    ELSE IF t.init = "surface" /\ \E v \in Range(t.w0) : \E d \in DOMAIN v : v[d] \notin (lo[d] - 1)..(hi[d] + 1) THEN "initial weights outside the data"
    ELSE IF t.init = "centroid" /\ \E v \in Range(t.w0) : \E d \in DOMAIN v : Abs(2 * v[d] - lo[d] - hi[d]) > 20002 THEN "initial weights away from the centroid"
    ELSE IF t.init = "random" /\ \E v \in Range(t.w0) : \E d \in DOMAIN v : Abs(v[d]) > 10001 THEN "initial weights are not around zero"
    ELSE ""
Won(t, k) == {j \in DOMAIN t.caught : (k - 1) \in Range(t.caught[j])}
AnswerWhy(t) ==
    LET n == Len(t.pats) IN
    IF t.ret \notin 1..t.n \/ (~t.autostop /\ t.ret # t.n) THEN "number of epochs"
    ELSE IF ~IsPartition(n, t.caught, <<>>) \/ Len(t.caught) # Size(t) THEN "captured objects do not partition the patterns"
    ELSE IF \E j \in DOMAIN t.caught : \E k \in 2..Len(t.caught[j]) : t.caught[j][k - 1] >= t.caught[j][k] THEN "captured objects are not in order"
    ELSE IF t.awards # [j \in DOMAIN t.caught |-> Len(t.caught[j])] THEN "awards are not the numbers of captured objects"
    ELSE IF t.winners # Cardinality({j \in DOMAIN t.caught : t.caught[j] # <<>>}) THEN "number of winners"
    ELSE IF t.size # Size(t) THEN "size"
    ELSE IF \E k \in DOMAIN t.sims : t.sims[k].a + 1 \notin M!Closest(t.w, t.sims[k].x, 3) THEN "simulation does not return a closest neuron"
    ELSE ""
(* mean squared distance (10^4) to the neighbours on the grid *)
UType(t) == IF t.type = "func" THEN "eight" ELSE t.type
UWhy(t) ==
    LET F(a) == LET ls == M!Links(UType(t), t.rows, t.cols, a) IN
                IF ls = {} THEN 0 ELSE SumOver(ls, [b \in ls |-> SumSeq([d \in DOMAIN t.w[1] |-> LET u == M!RDiv(t.w[a + 1][d] - t.w[b + 1][d], 10) IN (u * u) \div 100])]) \div Cardinality(ls)
    IN IF t.um = <<>> THEN "" ELSE IF \E a \in 0..(Size(t) - 1) : Abs(t.um[M!Cell(a, t.cols)[1] + 1][M!Cell(a, t.cols)[2] + 1] - F(a)) > 400 THEN "distance matrix is not the mean distance to the connected neurons" ELSE ""
DWhy(t) ==
    LET lo == M!Lows(t.w) hi == M!Highs(t.w)
        Cnt(a, tol) == Cardinality({k \in DOMAIN t.pats : \A d \in DOMAIN lo : Abs(t.pats[k][d] - t.w[a + 1][d]) * t.div <= hi[d] - lo[d] + tol * t.div})
    IN IF t.dm = <<>> THEN "" ELSE IF \E a \in 0..(Size(t) - 1) : t.dm[M!Cell(a, t.cols)[1] + 1][M!Cell(a, t.cols)[2] + 1] \notin Cnt(a, -3)..Cnt(a, 3) THEN "density matrix does not count the patterns around neurons" ELSE ""
Final(t) == IF M!Change(w, t.w) > 150 THEN "weights are not the result of the adaptation"
            ELSE IF ~t.untouched THEN "input data or parameters modified"
            ELSE IF ~t.restored THEN "map restored from its dump differs"
            ELSE IF ~t.retrained THEN "training again gave other weights"
            ELSE ""
Init == /\ tid \in 1..NTraces /\ e = 1 /\ i = 1 /\ w = T.w0 /\ prev = T.w0 /\ br = 1
        /\ c = "run"
Check == c = "run" /\ e = 1 /\ i = 1 /\ LET y == IF InitWhy(T) # "" THEN InitWhy(T) ELSE IF AnswerWhy(T) # "" THEN AnswerWhy(T) ELSE IF UWhy(T) # "" THEN UWhy(T) ELSE DWhy(T) IN
         IF y = "" THEN c' = "go" /\ UNCHANGED <<tid, e, i, w, prev, br>> ELSE Reject(tid, 0, y) /\ c' = "end" /\ UNCHANGED <<tid, e, i, w, prev, br>>
Last(t) == t.ret
Present == /\ c = "go" /\ e <= T.ret /\ i <= Len(T.pats)
           /\ LET near == M!Closest(w, T.pats[i], 8)
                  who == IF e = T.ret THEN near \cap Won(T, i) ELSE near
                  rad == M!Radius2(R0(T), e, T.n)
                  rate == M!Rate(T.rate, e, T.n)
              IN IF who = {} THEN Reject(tid, e, "pattern is captured by a neuron that is not the closest") /\ c' = "end" /\ UNCHANGED <<tid, e, i, w, prev, br>>
                 ELSE IF br * Cardinality(who) > 64 THEN Accept(tid) /\ c' = "end" /\ UNCHANGED <<tid, e, i, w, prev, br>>      \* too many to follow
                 ELSE \E j \in who : w' = M!Adapt(w, T.pats[i], M!Shares(T.type, T.rows, T.cols, j - 1, rad, rate)) /\ i' = i + 1 /\ br' = br * Cardinality(who) /\ UNCHANGED <<tid, e, prev, c>>
(* an epoch ends; with automatic stop training goes on if a weight has changed by the threshold or more (the first epoch may be compared with the     *)
(* initial weights or not at all)                                                                                                                       *)
Epoch == /\ c = "go" /\ e <= T.ret /\ i > Len(T.pats)
         /\ LET d == M!Change(w, prev) IN
            IF T.autostop /\ e < T.ret /\ e > 1 /\ d < T.thr - 40 THEN Reject(tid, e, "training goes on without adaptation") /\ c' = "end" /\ UNCHANGED <<tid, e, i, w, prev, br>>
            ELSE IF T.autostop /\ e = T.ret /\ e < T.n /\ d > T.thr + 40 THEN Reject(tid, e, "training stops in spite of adaptation") /\ c' = "end" /\ UNCHANGED <<tid, e, i, w, prev, br>>
            ELSE /\ e' = e + 1 /\ i' = 1 /\ prev' = w /\ UNCHANGED <<tid, w, c, br>>
End == /\ c = "go" /\ e > T.ret /\ c' = "end" /\ Verdict(tid, e, Final(T)) /\ UNCHANGED <<tid, e, i, w, prev, br>>
Next == Check \/ Present \/ Epoch \/ End
Spec == Init /\ [][Next]_vars
====
