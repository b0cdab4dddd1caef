---- MODULE AdjacencyTrace ----
(* n, rep, weighted, py (the Python network), sym (set_connection connects both ways); ev: op "set" | "erase" | "weight" | "none" | "all" | "list" | "four" | "eight" | "copy",  *)
(* i, j, w (weight, or width of the grid), h (0: square), fresh (weights come from the initializer: at least 2), thrown; observed after the event:         *)
(* size, has (pairs), neigh (lists of every node), wts (weights of the pairs in has).                                                                          *)
EXTENDS TraceBase, Geom
A == INSTANCE Adjacency WITH N <- 0, Weights <- {}, Bits <- 1, MaxGrid <- 0, graph <- <<>>, matrix <- <<>>, words <- <<>>, lists <- <<>>, shape <- <<1, 1>>
VARIABLES tid, l, edges, wt, why
vars == <<tid, l, edges, wt, why>>
T == Traces[tid]
Init == tid \in 1..NTraces /\ l = 1 /\ edges = {} /\ wt = <<>> /\ why = ""
Structured(e) == e.op \in {"none", "all", "list", "four", "eight"}
Grid(e) == e.op \in {"four", "eight"}
MustThrow(e) == Grid(e) /\ (IF e.h = 0 THEN ~A!Square(T.n) ELSE e.w * e.h # T.n)
Width(e) == IF e.h = 0 THEN A!RootOf(T.n) ELSE e.w
After(e) == IF e.thrown THEN edges
    ELSE CASE e.op = "set" -> edges \cup (IF T.sym THEN {<<e.i, e.j>>, <<e.j, e.i>>} ELSE {<<e.i, e.j>>})
      [] e.op = "erase" -> edges \ {<<e.i, e.j>>}
      [] e.op = "weight" -> IF e.w = 0 THEN edges \ {<<e.i, e.j>>} ELSE edges \cup {<<e.i, e.j>>}
      [] e.op = "copy" -> edges
      [] Structured(e) -> A!Structure(e.op, T.n, Width(e))
(* weight of a pair after the event: a set of allowed values *)
Old(p) == IF p \in edges THEN {wt[p]} ELSE {}
WeightsOf(e, p) == CASE e.op = "set" /\ p = <<e.i, e.j>> -> {1} \cup Old(p)
      [] e.op = "weight" /\ p = <<e.i, e.j>> -> {e.w}
      [] Structured(e) /\ ~e.thrown -> IF e.fresh THEN 2..1000000 ELSE {1} \cup (IF e.op = "all" THEN Old(p) ELSE {})
      [] OTHER -> Old(p)
NeighSets(e, want) == Len(e.neigh) = T.n /\ \A i \in 1..T.n : {<<i - 1, e.neigh[i][k]>> : k \in DOMAIN e.neigh[i]} = {p \in want : p[1] = i - 1}
NeighWhy(e, want) == IF Len(e.neigh) # T.n \/ \E i \in 1..T.n : ~Distinct(e.neigh[i]) \/ {<<i - 1, e.neigh[i][k]>> : k \in DOMAIN e.neigh[i]} # {p \in want : p[1] = i - 1} THEN "neighbours disagree with the connections" ELSE ""
StepWhy(e) == LET want == After(e) has == Range(e.has) IN
    IF e.thrown # MustThrow(e) THEN (IF e.thrown THEN "structure refused for a fitting size" ELSE "structure accepted for a size that does not fit")
    ELSE IF e.size # T.n THEN "size changed"
    ELSE IF has # want THEN (IF T.py /\ Grid(e) /\ has = A!Shifted(e.op, T.n, Width(e)) /\ NeighSets(e, has) THEN "rows of horizontal connections of the grid are shifted by one node"
                             ELSE IF Structured(e) THEN "structure is not '" \o e.op \o "'" ELSE "connections are not those of the updates")
    ELSE IF NeighWhy(e, want) # "" THEN NeighWhy(e, want)
    ELSE IF T.weighted /\ \E k \in DOMAIN e.has : e.wts[k] \notin WeightsOf(e, e.has[k]) THEN "weight is not that of the update"
    ELSE IF T.weighted /\ e.zero # 0 THEN "weight of a missing connection is not zero" ELSE ""
Step == /\ l > 0 /\ why = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN
           /\ why' = StepWhy(e) /\ edges' = Range(e.has)
           /\ wt' = IF T.weighted THEN [p \in Range(e.has) |-> e.wts[CHOOSE k \in DOMAIN e.has : e.has[k] = p]] ELSE <<>>
        /\ l' = l + 1 /\ UNCHANGED tid
End == /\ l > 0 /\ (why # "" \/ l > Len(T.ev)) /\ l' = -2 /\ UNCHANGED <<tid, edges, wt, why>> /\ Verdict(tid, l - 1, why)
Next == Step \/ End
Spec == Init /\ [][Next]_vars
====
