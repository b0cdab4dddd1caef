---- MODULE Parallel ----
(* A parallel loop: the elements are divided into consecutive chunks, some run by asynchronous workers and one by the caller; *)
(* the call returns when its own chunk is done and every worker has been waited for.                                          *)
EXTENDS Integers, Sequences, FiniteSets

(* the indexes start, start+step, ... below end *)
Indexes(start, end, step) == {start + k * step : k \in 0 .. (IF end > start THEN (end - start - 1) \div step ELSE -1)}

(* ---- observable state: begun/ended elements and whether the call has returned ------------------------------ *)
MayBegin(E, begun, returned, i) == i \in E /\ i \notin begun /\ ~returned
MayEnd(begun, ended, i) == i \in begun /\ i \notin ended
MayReturn(E, ended, returned) == ended = E /\ ~returned

CONSTANTS MaxLen, MaxThreads, MaxStep
VARIABLES start, end, step, chunks, pos, phase, begun, ended, returned
vars == <<start, end, step, chunks, pos, phase, begun, ended, returned>>
E == Indexes(start, end, step)
Ordered == [k \in 1 .. Cardinality(E) |-> start + (k - 1) * step]
(* every division into at most MaxThreads consecutive chunks *)
Cuts(n, m) == {c \in [0..m -> 0..n] : c[0] = 0 /\ c[m] = n /\ \A i \in 1..m : c[i - 1] <= c[i]}
Init == /\ start \in 0..1 /\ end \in start..MaxLen /\ step \in 1..MaxStep
        /\ \E m \in 1..MaxThreads : \E c \in Cuts(Cardinality(Indexes(start, end, step)), m) :
             chunks = [w \in 1..m |-> SubSeq([k \in 1 .. Cardinality(Indexes(start, end, step)) |-> start + (k - 1) * step], c[w - 1] + 1, c[w])]
        /\ pos = [w \in DOMAIN chunks |-> 1] /\ phase = [w \in DOMAIN chunks |-> "idle"]
        /\ begun = {} /\ ended = {} /\ returned = FALSE
Begin(w) == /\ phase[w] = "idle" /\ pos[w] <= Len(chunks[w])
            /\ phase' = [phase EXCEPT ![w] = "busy"] /\ begun' = begun \cup {chunks[w][pos[w]]}
            /\ UNCHANGED <<start, end, step, chunks, pos, ended, returned>>
End(w) == /\ phase[w] = "busy"
          /\ phase' = [phase EXCEPT ![w] = "idle"] /\ ended' = ended \cup {chunks[w][pos[w]]}
          /\ pos' = [pos EXCEPT ![w] = @ + 1]
          /\ UNCHANGED <<start, end, step, chunks, begun, returned>>
Finished(w) == pos[w] > Len(chunks[w])
Return == /\ ~returned /\ \A w \in DOMAIN chunks : Finished(w) /\ returned' = TRUE
          /\ UNCHANGED <<start, end, step, chunks, pos, phase, begun, ended>>
Next == Return \/ \E w \in DOMAIN chunks : Begin(w) \/ End(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* every step of the design is allowed by the observable rules, which the recorded executions are held to *)
Legal == [][ /\ \A i \in begun' \ begun : MayBegin(E, begun, returned, i)
             /\ \A i \in ended' \ ended : MayEnd(begun, ended, i)
             /\ (returned' /\ ~returned => MayReturn(E, ended, returned)) ]_vars
Once == \A w \in DOMAIN chunks : phase[w] = "busy" => chunks[w][pos[w]] \notin ended
Complete == returned => ended = E
Returns == <>returned
====
