---- MODULE ColoringTrace ----
(* t.kind = "dsatur": adj (rows of 0/1), col.  "groups": dyn, steps, tol, groups, map (hysteresis network).  "net": n, groups, map.    *)
EXTENDS TraceBase, Geom
C == INSTANCE Coloring WITH MaxN <- 0, MaxStates <- 0, g <- <<>>, col <- <<>>
VARIABLES tid, l, front, why
vars == <<tid, l, front, why>>
T == Traces[tid]
G(t) == [i \in DOMAIN t.adj |-> {j \in DOMAIN t.adj : t.adj[i][j] = 1}]
UpS(s) == [k \in DOMAIN s |-> s[k] + 1]
GroupsWhy(t) ==
    IF ~IsPartition(t.n, t.groups, <<>>) THEN "groups do not partition the vertices"
    ELSE IF Len(t.map) # t.n \/ \E x \in DOMAIN t.groups : \E i \in Range(t.groups[x]) : t.map[i + 1] # x - 1 THEN "map of colours does not agree with the groups"
    ELSE IF t.kind = "groups" /\ [x \in DOMAIN t.groups |-> UpS(t.groups[x])] # C!Groups(t.dyn, t.steps, t.tol, t.n) THEN "groups are not those of the dynamic"
    ELSE ""
First(t) == IF t.kind # "dsatur" THEN GroupsWhy(t)
            ELSE IF Len(t.col) # Len(t.adj) \/ \E i \in DOMAIN t.col : t.col[i] < 1 THEN "vertex without a colour"
            ELSE IF ~C!Proper(G(t), t.col) THEN "adjacent vertices of the same colour" ELSE ""
Init == tid \in 1..NTraces /\ l = 0 /\ front = {{}} /\ why = ""
Begin == l = 0 /\ why' = First(T) /\ l' = (IF why' # "" \/ T.kind # "dsatur" THEN -1 ELSE 1) /\ UNCHANGED <<tid, front>>
Step == /\ l > 0 /\ UNCHANGED tid
        /\ IF l > Len(T.adj) THEN l' = -1 /\ UNCHANGED <<front, why>>
           ELSE /\ front' = C!Extend(G(T), T.col, front)
                /\ IF front' = {} THEN why' = "no order of maximal saturation gives these colours" /\ l' = -1 ELSE why' = "" /\ l' = l + 1
End == l = -1 /\ l' = -2 /\ UNCHANGED <<tid, front, why>> /\ Verdict(tid, 0, why)
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars
====
