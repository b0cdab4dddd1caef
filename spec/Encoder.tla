---- MODULE Encoder ----
(* Representations of a clustering: labels (0: no cluster, c: cluster c), lists of indexes, lists of objects.  data: value of every object, *)
(* equal objects have equal values.                                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, Geom

NOLABEL == 0
(* amount of objects with value v in cluster c (c = 0: in none) *)
ByLabel(data, x, c, v) == Cardinality({i \in DOMAIN data : x[i] = c /\ data[i] = v})
ByIndex(data, x, c, v) == IF c = 0 THEN Cardinality({i \in DOMAIN data : data[i] = v /\ \A e \in DOMAIN x : i \notin Range(x[e])})
                          ELSE Cardinality({k \in DOMAIN x[c] : data[x[c][k]] = v})
RECURSIVE CountIn(_, _)
CountIn(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
ByObject(data, x, c, v) == IF c = 0 THEN Cardinality({i \in DOMAIN data : data[i] = v}) - SumOver(DOMAIN x, [e \in DOMAIN x |-> CountIn(x[e], v)])
                           ELSE CountIn(x[c], v)
Amount(form, data, x, c, v) == CASE form = "label" -> ByLabel(data, x, c, v) [] form = "index" -> ByIndex(data, x, c, v) [] form = "object" -> ByObject(data, x, c, v)
Size(form, x) == IF form = "label" THEN MaxOf({0} \cup Range(x)) ELSE Len(x)
WellFormed(form, data, x) ==
    CASE form = "label" -> Len(x) = Len(data) /\ \A i \in DOMAIN x : x[i] >= 0
      [] form = "index" -> /\ \A c \in DOMAIN x : Range(x[c]) \subseteq DOMAIN data /\ Distinct(x[c])
                           /\ \A c, e \in DOMAIN x : c # e => Range(x[c]) \cap Range(x[e]) = {}
      [] form = "object" -> \A v \in UNION {Range(x[c]) : c \in DOMAIN x} : ByObject(data, x, 0, v) >= 0
(* cluster of object i as far as the representation says it *)
In(form, x, i) == IF form = "label" THEN x[i] ELSE IF \E c \in DOMAIN x : i \in Range(x[c]) THEN CHOOSE c \in DOMAIN x : i \in Range(x[c]) ELSE 0
(* y (form g) says the same as x (form f) *)
SameObjects(data, f, x, g, y) == LET m == Max2(Size(f, x), Size(g, y)) IN
    \A v \in Range(data) : \A c \in 0..m : (IF c > Size(f, x) THEN 0 ELSE Amount(f, data, x, c, v)) = (IF c > Size(g, y) THEN 0 ELSE Amount(g, data, y, c, v))
SameIndexes(data, f, x, g, y) == (f # "object" /\ g # "object") => \A i \in DOMAIN data : In(f, x, i) = In(g, y, i)
(* lists correspond position by position; labels forget the order inside a cluster and empty clusters at the end *)
SameOrder(data, f, x, g, y) == CASE f = "index" /\ g = "object" -> Len(y) = Len(x) /\ \A c \in DOMAIN x : y[c] = [k \in DOMAIN x[c] |-> data[x[c][k]]]
    [] f = "object" /\ g = "index" -> Len(y) = Len(x) /\ \A c \in DOMAIN x : x[c] = [k \in DOMAIN y[c] |-> data[y[c][k]]]
    [] f = "label" -> Size(g, y) = Size(f, x)
    [] OTHER -> TRUE
Same(data, f, x, g, y) == SameObjects(data, f, x, g, y) /\ SameIndexes(data, f, x, g, y) /\ SameOrder(data, f, x, g, y)

(* ---- transition system: conversions in any order, equal objects given to lists of objects in any way ------------------------ *)
CONSTANTS N, Values, K, Depth
VARIABLES data, form, cl, start, steps
vars == <<data, form, cl, start, steps>>
Ordered(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]
LabelOf(x) == [i \in 1..N |-> In("index", x, i)]
IndexOf(lab) == [c \in 1..MaxOf({0} \cup Range(lab)) |-> Ordered({i \in 1..N : lab[i] = c})]
ObjectOf(x) == [c \in DOMAIN x |-> [k \in DOMAIN x[c] |-> data[x[c][k]]]]
Labellings == [1..N -> 0..K]
Init == /\ data \in [1..N -> Values] /\ form = "label" /\ cl \in Labellings /\ start = cl /\ steps = 0
ToLabel == \/ form = "index" /\ cl' = LabelOf(cl)
           \/ form = "object" /\ \E lab \in Labellings : SameObjects(data, "object", cl, "label", lab) /\ cl' = lab
ToIndex == \/ form = "label" /\ cl' = IndexOf(cl)
           \/ form = "object" /\ \E lab \in Labellings : SameObjects(data, "object", cl, "label", lab) /\ Len(IndexOf(lab)) = Len(cl) /\ cl' = IndexOf(lab)
ToObject == \/ form = "label" /\ cl' = ObjectOf(IndexOf(cl))
            \/ form = "index" /\ cl' = ObjectOf(cl)
Next == /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED <<data, start>>
        /\ \/ form' = "label" /\ (IF form = "label" THEN UNCHANGED cl ELSE ToLabel)
           \/ form' = "index" /\ (IF form = "index" THEN UNCHANGED cl ELSE ToIndex)
           \/ form' = "object" /\ (IF form = "object" THEN UNCHANGED cl ELSE ToObject)
Spec == Init /\ [][Next]_vars
Proper == WellFormed(form, data, cl)
NothingLost == SameObjects(data, "label", start, form, cl)
(* without equal objects the clustering itself is preserved *)
ExactIfDistinct == Cardinality(Range(data)) = N /\ form # "object" => \A i \in 1..N : In(form, cl, i) = start[i]
====
