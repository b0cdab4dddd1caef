---- MODULE UtilsTrace ----
(* One function call (or repeated calls) of pyclustering.utils, cluster.generator; see C29. Reals are fixed point (10^4).           *)
EXTENDS TraceBase, Geom
U == INSTANCE Utils WITH MaxStream <- 0, MaxSample <- 0, n <- 0, k <- 0, pos <- 0, sample <- <<>>, lo <- 0, hi <- 0, list <- <<>>, target <- 0
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Is(w, f) == Abs(w * f[2] - f[1] * 10000) <= f[2]
IsRoot(w, f) == LET v == w \div 100 IN Max2(v - 1, 0) * Max2(v - 1, 0) * f[2] <= f[1] * 10000 /\ f[1] * 10000 <= (v + 2) * (v + 2) * f[2]
Small(w) == w >= -200000000 /\ w <= 200000000
(* outs: distinct sets of positions (1-based, sorted) seen in many runs *)
ReservoirWhy(t) == LET outs == {Range(t.outs[i]) : i \in DOMAIN t.outs} IN
    IF \E i \in DOMAIN t.outs : ~Distinct(t.outs[i]) THEN "a position of the stream is sampled twice"
    ELSE IF \E s \in outs : ~(s \subseteq 1..t.n) \/ Cardinality(s) # t.k THEN "sample has another size"
    ELSE IF t.k >= 1 /\ outs # {s \in SUBSET (1..t.n) : Cardinality(s) = t.k} THEN "a sample can never occur"
    ELSE ""
Adjacent(t) == [i \in 1..t.n |-> [j \in 1..t.n |-> IF <<i, j>> \in {<<t.edges[e][1], t.edges[e][2]>> : e \in DOMAIN t.edges} \cup {<<t.edges[e][2], t.edges[e][1]>> : e \in DOMAIN t.edges} THEN 1 ELSE 0]]
GraphWhy(t) == LET want == IF t.fmt = "e" THEN Adjacent(t) ELSE t.rows IN
    IF t.data # want THEN "graph is not that of the file"
    ELSE IF t.space # t.coords THEN "coordinates of nodes are not those of the file"
    ELSE IF t.descr # (IF t.fmt = "v" THEN "vector" ELSE "matrix") THEN "description has another type"
    ELSE IF t.len # t.n THEN "graph has another size" ELSE ""
Grayed(g, pix) == Len(g) = Len(pix) /\ \A i \in DOMAIN g : Abs(g[i] - U!Luminosity(pix[i])) <= 1
Why(t) ==
    IF ~t.untouched THEN "input data modified" ELSE
    CASE t.kind = "reservoir" -> ReservoirWhy(t)
      [] t.kind = "rsum" -> IF t.res # SumSeq(t.a) THEN "wrong sum" ELSE ""
      [] t.kind = "rows" -> IF t.res # (CASE t.op = "mul" -> [i \in DOMAIN t.rows |-> U!MapTwo("mul", t.rows[i], t.b)]
                                          [] t.op = "sum0" -> U!LinearSum(t.rows) [] t.op = "sum1" -> [i \in DOMAIN t.rows |-> SumSeq(t.rows[i])])
                            THEN "wrong matrix operation" ELSE ""
      [] t.kind = "stats" -> LET n == Len(t.a) ps == [i \in DOMAIN t.a |-> <<t.a[i]>>] v == <<U!Dev(ps), n * (n - 1)>> around == <<SumSeq([i \in DOMAIN t.a |-> (t.a[i] - t.x) * (t.a[i] - t.x)]), n - 1>> IN
                             IF ~Is(t.res[1], <<SumSeq(t.a), n>>) THEN "wrong mean" ELSE IF ~Is(t.res[2], v) \/ ~IsRoot(t.res[3], v) THEN "wrong variance"
                             ELSE IF ~Is(t.res[4], around) \/ ~IsRoot(t.res[5], around) THEN "wrong variance about a given mean" ELSE ""
      [] t.kind = "signs" -> IF t.res # <<IF t.x >= 0 THEN 1 ELSE 0, Abs(t.a[1] - t.b[1]), Abs(t.a[1] - t.b[1])>> THEN "wrong step function or difference" ELSE ""
      [] t.kind = "search" -> IF t.res # U!Leftmost(t.list, t.right) THEN "not the leftmost element that is not below the target" ELSE ""
      [] t.kind = "two" -> IF t.res # U!MapTwo(t.op, t.a, t.b) THEN "wrong " \o t.op ELSE ""
      [] t.kind = "num" -> IF t.res # U!MapNum(t.op, t.a, t.x) THEN "wrong " \o t.op ELSE ""
      [] t.kind = "div" -> IF Len(t.res) # Len(t.a) \/ \E i \in DOMAIN t.a : ~Is(t.res[i], IF t.b[i] > 0 THEN <<t.a[i], t.b[i]>> ELSE <<-t.a[i], -t.b[i]>>) THEN "wrong division" ELSE ""
      [] t.kind = "sums" -> IF t.lin # U!LinearSum(t.pts) THEN "wrong linear sum" ELSE IF t.sq # U!SquareSum(t.pts) THEN "wrong square sum"
                            ELSE IF ~IsRoot(t.norm, <<Sq(t.pts[1], [d \in DOMAIN t.pts[1] |-> 0]), 1>>) THEN "wrong norm" ELSE ""
      [] t.kind = "corners" -> LET idx == IF t.filter = <<>> THEN DOMAIN t.pts ELSE {x + 1 : x \in Range(t.filter)} IN
                            IF t.low # U!Low(t.pts, idx) \/ t.high # U!High(t.pts, idx) THEN "corners are not those of the objects" ELSE ""
      [] t.kind = "dims" -> LET a == U!Low(t.pts, DOMAIN t.pts) b == U!High(t.pts, DOMAIN t.pts) IN
                            IF t.dim # Len(t.pts[1]) THEN "wrong dimension" ELSE IF t.low # a \/ t.high # b THEN "wrong extreme coordinates"
                            ELSE IF t.width # [d \in DOMAIN a |-> b[d] - a[d]] THEN "wrong width" ELSE IF t.center2 # [d \in DOMAIN a |-> a[d] + b[d]] THEN "wrong center" ELSE ""
      [] t.kind = "between" -> IF ~IsRoot(t.inter, U!InterSq(t.a, t.b)) THEN "wrong average inter-cluster distance"
                               ELSE IF ~IsRoot(t.intra, U!IntraSq(t.a, t.b)) THEN "wrong average intra-cluster distance"
                               ELSE IF ~Is(t.var, U!VarianceInc(t.a, t.b)) THEN "wrong variance increase distance" ELSE ""
      [] t.kind = "nearest" -> IF \E i \in DOMAIN t.res : ~Is(t.res[i], U!NearestMean(t.x, t.num)) THEN "wrong average distance to the nearest neighbours" ELSE ""
      [] t.kind = "matrix" -> IF t.res # [i \in DOMAIN t.pts |-> [j \in DOMAIN t.pts |-> IF t.metric = "sq" THEN Sq(t.pts[i], t.pts[j]) ELSE Manhattan(t.pts[i], t.pts[j])]] THEN "wrong distance matrix" ELSE ""
      [] t.kind = "generate" -> IF [i \in DOMAIN t.labels |-> t.labels[i]] # t.want THEN "generated clusters have other sizes or another order"
                               ELSE IF \E i \in DOMAIN t.dims : t.dims[i] # t.dim THEN "generated points have another dimension" ELSE ""
      [] t.kind = "graph" -> GraphWhy(t)
      [] t.kind = "sample" -> IF t.data # t.rows THEN "data is not that of the file" ELSE ""
      [] t.kind = "borders" -> LET xs == {t.dark[i][1] : i \in DOMAIN t.dark} ys == {t.dark[i][2] : i \in DOMAIN t.dark} IN
                               IF t.res # <<MinOf(xs), MinOf(ys), MaxOf(xs) + 1, MaxOf(ys) + 1>> THEN "borders do not enclose the pattern exactly"
                               ELSE IF t.stretched # t.w * t.h \/ t.size # <<t.w, t.h>> THEN "stretched pattern has another size"
                               ELSE IF ~Grayed(t.pattern, t.pixels) THEN "stretched pattern is not that of its image" ELSE ""
      [] t.kind = "gray" -> IF t.read # t.pix THEN "pixels are not those of the image"
                            ELSE IF ~Grayed(t.gray, t.pix) THEN "wrong gray" ELSE IF t.step # (IF t.v > 0 THEN 1 ELSE 0) THEN "wrong step function" ELSE ""
      [] t.kind = "oscillations" -> IF t.res # U!Oscillations(t.y, t.th) THEN "wrong number of oscillations" ELSE ""
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_vars
====
