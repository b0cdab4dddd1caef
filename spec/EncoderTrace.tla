---- MODULE EncoderTrace ----
(* data: value of every object; form, cl: the given representation; ev: conversions [to, said (reported representation), cl].     *)
EXTENDS TraceBase, Geom
X == INSTANCE Encoder WITH N <- 0, Values <- {}, K <- 0, Depth <- 0, data <- <<>>, form <- "", cl <- <<>>, start <- <<>>, steps <- 0
VARIABLES tid, l, form, cl, why
vars == <<tid, l, form, cl, why>>
T == Traces[tid]
Init == tid \in 1..NTraces /\ l = 1 /\ form = Traces[tid].form /\ cl = Traces[tid].cl /\ why = ""
StepWhy(e) == IF e.said # e.to THEN "reported representation is not the current one"
    ELSE IF e.to = form THEN (IF e.cl # cl THEN "conversion to the same representation changes it" ELSE "")
    ELSE IF ~X!WellFormed(e.to, T.data, e.cl) THEN "not a clustering of the objects"
    ELSE IF ~X!SameObjects(T.data, form, cl, e.to, e.cl) THEN "objects lost, added or moved between clusters (" \o form \o " to " \o e.to \o ")"
    ELSE IF ~X!SameIndexes(T.data, form, cl, e.to, e.cl) THEN "another object of the same value is in the cluster (" \o form \o " to " \o e.to \o ")"
    ELSE IF ~X!SameOrder(T.data, form, cl, e.to, e.cl) THEN "lists do not correspond (" \o form \o " to " \o e.to \o ")"
    ELSE ""
Step == /\ l > 0 /\ why = "" /\ l <= Len(T.ev)
        /\ why' = StepWhy(T.ev[l]) /\ form' = T.ev[l].to /\ cl' = T.ev[l].cl /\ l' = l + 1 /\ UNCHANGED tid
End == /\ l > 0 /\ (why # "" \/ l > Len(T.ev)) /\ l' = -2 /\ UNCHANGED <<tid, form, cl, why>>
       /\ Verdict(tid, l - 1, IF why # "" THEN why ELSE IF ~X!SameObjects(T.data, T.form, T.cl, form, cl) THEN "not the clustering given at the start"
                              ELSE IF ~T.untouched THEN "data modified" ELSE "")
Next == Step \/ End
Spec == Init /\ [][Next]_vars
====
