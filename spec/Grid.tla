---- MODULE Grid ----
(* Grid clustering.  CLIQUE: m intervals per dimension between the corners of the data; an object on a border belongs to the lower cell;  *)
(* dense cells touching along a side form a cluster.  BANG: blocks halved level by level (level k in dimension k mod dim), an object on    *)
(* the border belongs to the lower half; leaf blocks that exceed the density and touch (also diagonally) form a cluster.                    *)
EXTENDS Integers, Sequences, FiniteSets, Geom

Lo(pts, d) == MinOf({pts[i][d] : i \in DOMAIN pts})
Hi(pts, d) == MaxOf({pts[i][d] : i \in DOMAIN pts})
CornerLo(pts) == [d \in DOMAIN pts[1] |-> Lo(pts, d)]
CornerHi(pts) == [d \in DOMAIN pts[1] |-> Hi(pts, d)]
CeilDiv(a, b) == (a + b - 1) \div b

(* ---- CLIQUE ---------------------------------------------------------------------------------------------------------------------------- *)
Cell1(x, lo, hi, m) == IF x = lo \/ hi = lo THEN 0 ELSE CeilDiv((x - lo) * m, hi - lo) - 1
OnBorder(x, lo, hi, m) == x # lo /\ x # hi /\ ((x - lo) * m) % (hi - lo) = 0
CellOf(lo, hi, m, p) == [d \in DOMAIN p |-> Cell1(p[d], lo[d], hi[d], m)]
Members(at, c) == {i \in DOMAIN at : at[i] = c}
SideBySide(a, b) == \E d \in DOMAIN a : Abs(a[d] - b[d]) = 1 /\ \A e \in DOMAIN a \ {d} : a[e] = b[e]
RECURSIVE Spread(_, _)
Spread(S, nb) == LET T == S \cup (UNION {nb[x] : x \in S}) IN IF T = S THEN S ELSE Spread(T, nb)
Components(D, Adj(_, _)) == LET nb == [x \in D |-> {y \in D : Adj(x, y)}] IN {Spread({x}, nb) : x \in D}
Dense(at, thr) == {c \in Range(at) : Cardinality(Members(at, c)) > thr}
CliqueClusters(at, thr) == {UNION {Members(at, c) : c \in K} : K \in Components(Dense(at, thr), SideBySide)}
CliqueNoise(at, thr) == {i \in DOMAIN at : at[i] \notin Dense(at, thr)}

(* ---- BANG: blocks [lo, hi, open] with integer corners (scaled so that halves are integers); open: dimensions whose lower border is not its own *)
Inside(p, b) == \A d \in DOMAIN p : p[d] <= b.hi[d] /\ (p[d] > b.lo[d] \/ (p[d] = b.lo[d] /\ d \notin b.open))
Held(pts, b) == {i \in DOMAIN pts : Inside(pts[i], b)}
RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE (IF s[k] = 0 THEN 1 ELSE s[k]) * Prod(s, k - 1)
Edges(b) == [d \in DOMAIN b.lo |-> b.hi[d] - b.lo[d]]
Volume(b) == IF \A d \in DOMAIN b.lo : b.hi[d] = b.lo[d] THEN 0 ELSE Prod(Edges(b), Len(b.lo))
(* density > num/den where volumes are counted in units 1/vs *)
Above(amount, vol, vs, num, den) == vol # 0 /\ amount * vs * den > num * vol
Halves(b, d) == LET mid == (b.lo[d] + b.hi[d]) \div 2 IN
    <<[b EXCEPT !.hi[d] = mid], [b EXCEPT !.lo[d] = mid, !.open = @ \cup {d}]>>
Touch(a, b) == \A d \in DOMAIN a.lo : Max2(a.lo[d], b.lo[d]) <= Min2(a.hi[d], b.hi[d])
Root(pts) == [lo |-> CornerLo(pts), hi |-> CornerHi(pts), open |-> {}, reg |-> 0, lev |-> 0]
Child(b, d, k) == LET h == Halves(b, d)[k] IN [h EXCEPT !.reg = b.reg + (IF k = 2 THEN 2 ^ b.lev ELSE 0), !.lev = b.lev + 1]
Stops(pts, b, vs, num, den, amt) == LET n == Cardinality(Held(pts, b)) IN ~Above(n, Volume(b), vs, num, den) \/ n <= amt
(* leaves after all levels: blocks of level lev are split in dimension (lev + 1) mod dim *)
RECURSIVE Leaves(_, _, _, _, _, _, _, _)
Leaves(pts, B, lev, levels, vs, num, den, amt) ==
    IF lev = levels - 1 THEN B
    ELSE LET stop == {b \in B : Stops(pts, b, vs, num, den, amt)} d == ((lev + 1) % Len(pts[1])) + 1 IN
         stop \cup Leaves(pts, UNION {{Child(b, d, 1), Child(b, d, 2)} : b \in B \ stop}, lev + 1, levels, vs, num, den, amt)
BangLeaves(pts, levels, vs, num, den, amt) == Leaves(pts, {Root(pts)}, 0, levels, vs, num, den, amt)
BangDense(pts, L, vs, num, den) == {b \in L : Above(Cardinality(Held(pts, b)), Volume(b), vs, num, den)}
BangGroups(pts, L, vs, num, den, amt) ==
    {K \in Components(BangDense(pts, L, vs, num, den), Touch) : \E b \in K : Cardinality(Held(pts, b)) > amt}
HeldBy(pts, K) == UNION {Held(pts, b) : b \in K}

(* ---- transition system: cells (leaves) are taken one by one, a dense one is expanded through its neighbours ----------------------------- *)
CONSTANTS MaxN, MaxCoord, MaxM, MaxThr, Levels
VARIABLES mode, pts, par, todo, cur, out, noise
vars == <<mode, pts, par, todo, cur, out, noise>>
Sc == 2 ^ (Levels - 1)
Scaled == [i \in DOMAIN pts |-> [d \in DOMAIN pts[i] |-> Sc * pts[i][d]]]
Init == /\ \E n \in 1..MaxN : pts \in [1..n -> [1..2 -> 0..MaxCoord]]
        /\ mode \in {"clique", "bang"} /\ par \in (IF mode = "clique" THEN (1..MaxM) \X (0..MaxThr) ELSE (1..Levels) \X (0..MaxThr))
        /\ cur = {} /\ out = {} /\ noise = {}
        /\ todo = IF mode = "clique" THEN {<<a, b>> : a \in 0..(par[1] - 1), b \in 0..(par[1] - 1)}
                  ELSE BangLeaves(Scaled, par[1], Sc * Sc, 0, 1, par[2])
At == [i \in DOMAIN pts |-> CellOf(CornerLo(pts), CornerHi(pts), par[1], pts[i])]
In(u) == IF mode = "clique" THEN Members(At, u) ELSE Held(Scaled, u)
IsDense(u) == IF mode = "clique" THEN Cardinality(In(u)) > par[2] ELSE Above(Cardinality(In(u)), Volume(u), Sc * Sc, 0, 1)
Adjacent(u, v) == IF mode = "clique" THEN SideBySide(u, v) ELSE Touch(u, v)
Start(u) == /\ u \in todo /\ IsDense(u) /\ (mode = "bang" => Cardinality(In(u)) > par[2])
Take == /\ cur = {} /\ todo # {}
        /\ IF \E u \in todo : Start(u)
           THEN \E u \in todo : Start(u) /\ cur' = {u} /\ todo' = todo \ {u} /\ UNCHANGED noise
           ELSE noise' = noise \cup (UNION {In(u) : u \in todo}) /\ todo' = {} /\ UNCHANGED cur
        /\ UNCHANGED <<mode, pts, par, out>>
Expand == /\ cur # {} /\ UNCHANGED <<mode, pts, par, noise>>
          /\ LET nb == {v \in todo : IsDense(v) /\ \E u \in cur : Adjacent(u, v)} IN
             IF nb = {} THEN out' = out \cup {UNION {In(u) : u \in cur}} /\ cur' = {} /\ UNCHANGED todo
             ELSE \E v \in nb : cur' = cur \cup {v} /\ todo' = todo \ {v} /\ UNCHANGED out
Next == Take \/ Expand
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == todo = {} /\ cur = {}
Objects == DOMAIN pts
(* every object is in exactly one cell / leaf *)
Exact == LET U == todo \cup cur IN out = {} /\ noise = {} /\ todo # {} => \A i \in Objects : Cardinality({u \in U : i \in In(u)}) = 1
Partition == Done => (UNION out) \cup noise = Objects /\ (UNION out) \cap noise = {} /\ \A a, b \in out : a # b => a \cap b = {}
Meaning == Done =>
    IF mode = "clique" THEN out = CliqueClusters(At, par[2]) /\ noise = CliqueNoise(At, par[2])
    ELSE LET L == BangLeaves(Scaled, par[1], Sc * Sc, 0, 1, par[2]) IN out = {HeldBy(Scaled, K) : K \in BangGroups(Scaled, L, Sc * Sc, 0, 1, par[2])}
Finishes == <>Done
====
