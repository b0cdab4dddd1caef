---- MODULE SegmentsTrace ----
(* Segmentation of an image (width w, h rows) by two layers of phase oscillators. first: ensembles of the first layer at the default *)
(* tolerance, ens: at the asked one; second: seq of [seg, ens]; least: size a colour segment needs for a second layer; noise: largest *)
(* size that is noise; colors, objects: what is reported. near: for every second network (if seen) the pairs it connects.            *)
EXTENDS TraceBase, Geom
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid]
Bag(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Sets(s) == Bag([i \in DOMAIN s |-> Range(s[i])])
Big(s, k) == SelectSeq(s, LAMBDA g : Len(g) > k)
Partition(s, S) == UNION {Range(s[i]) : i \in DOMAIN s} = S /\ SumSeq([i \in DOMAIN s |-> Len(s[i])]) = Cardinality(S) /\ \A i \in DOMAIN s : s[i] # <<>>
Row(t, p) == p \div t.w
Col(t, p) == p - Row(t, p) * t.w
Apart(t, p, q) == (Row(t, p) - Row(t, q)) * (Row(t, p) - Row(t, q)) + (Col(t, p) - Col(t, q)) * (Col(t, p) - Col(t, q))
Connected(t, seg) == {<<i, j>> \in (DOMAIN seg) \X (DOMAIN seg) : i < j /\ 4 * Apart(t, seg[i], seg[j]) <= t.r2}
Mapped(t) == [i \in DOMAIN t.second |-> [g \in DOMAIN t.second[i].ens |-> [x \in DOMAIN t.second[i].ens[g] |-> t.second[i].seg[t.second[i].ens[g][x] + 1]]]]
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))
Why(t) ==
    IF ~Partition(t.ens, 0..(t.w * t.h - 1)) \/ ~Partition(t.first, 0..(t.w * t.h - 1)) THEN "first layer does not hold every pixel once"
    ELSE IF Sets(t.colors) # Sets(Big(t.ens, t.noise)) THEN "colour segments are not the ensembles of the first layer above the noise"
    ELSE IF ~t.layer2 THEN (IF t.objects # <<>> THEN "objects without a second layer" ELSE "")
    ELSE IF Sets([i \in DOMAIN t.second |-> t.second[i].seg]) # Sets(Big(t.first, t.least - 1)) THEN "second layer does not cover the colour segments"
    ELSE IF \E i \in DOMAIN t.second : ~Partition(t.second[i].ens, 0..(Len(t.second[i].seg) - 1)) THEN "second layer does not hold every pixel of its segment once"
    ELSE IF \E i \in DOMAIN t.near : {<<t.near[i][k][1], t.near[i][k][2]>> : k \in DOMAIN t.near[i]} # Connected(t, t.second[i].seg) THEN "second layer does not connect the pixels within the radius"
    ELSE IF Sets(t.objects) # Sets(Big(Joined(Mapped(t)), t.noise)) THEN "objects are not the ensembles of the second layer above the noise"
    ELSE ""
Init == tid \in 1..NTraces /\ l = 1
Next == l = 1 /\ l' = -2 /\ tid' = tid /\ Verdict(tid, l, Why(T))
Spec == Init /\ [][Next]_vars
====
