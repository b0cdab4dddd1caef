---- MODULE ParallelTrace ----
(* Record: range start/end/step and runs = the event sequences of all schedules explored: <<1,i>> body begins, <<2,i>> body ends, *)
(* <<3,0>> the call returns, <<4,0>> nothing can go on.                                                                          *)
EXTENDS TraceBase
P == INSTANCE Parallel WITH MaxLen <- 0, MaxThreads <- 0, MaxStep <- 0, start <- 0, end <- 0, step <- 0, chunks <- <<>>, pos <- <<>>,
                            phase <- <<>>, begun <- {}, ended <- {}, returned <- FALSE
VARIABLES tid, run, l, begun, ended, returned
vars == <<tid, run, l, begun, ended, returned>>
T == Traces[tid]
E == P!Indexes(T.start, T.end, T.step)
Fresh == begun = {} /\ ended = {} /\ returned = FALSE
Init == tid \in 1..NTraces /\ run = 1 /\ l = 1 /\ Fresh
Why(e) == CASE e[1] = 1 -> IF P!MayBegin(E, begun, returned, e[2]) THEN "" ELSE
                              IF returned THEN "body runs after the loop returned" ELSE IF e[2] \notin E THEN "body run for an index outside the range"
                              ELSE "body run twice for one index"
            [] e[1] = 2 -> IF P!MayEnd(begun, ended, e[2]) THEN "" ELSE "body ended without beginning"
            [] e[1] = 3 -> IF P!MayReturn(E, ended, returned) THEN "" ELSE IF begun # ended THEN "returned while a body was running" ELSE "returned before every index was processed"
            [] OTHER -> "the loop never returns"
Event == /\ run > 0 /\ run <= Len(T.runs) /\ l <= Len(T.runs[run])
         /\ LET e == T.runs[run][l] w == Why(e) IN
            IF w # "" THEN Reject(tid, l, w) /\ run' = -1 /\ UNCHANGED <<l, begun, ended, returned>>
            ELSE /\ l' = l + 1 /\ run' = run
                 /\ begun' = (IF e[1] = 1 THEN begun \cup {e[2]} ELSE begun)
                 /\ ended' = (IF e[1] = 2 THEN ended \cup {e[2]} ELSE ended)
                 /\ returned' = (returned \/ e[1] = 3)
         /\ tid' = tid
EndRun == /\ run > 0 /\ run <= Len(T.runs) /\ l > Len(T.runs[run])
          /\ IF returned THEN run' = run + 1 ELSE Reject(tid, l, "the loop did not return") /\ run' = -1
          /\ l' = 1 /\ begun' = {} /\ ended' = {} /\ returned' = FALSE /\ tid' = tid
Finish == run = Len(T.runs) + 1 /\ run' = -2 /\ Accept(tid) /\ UNCHANGED <<tid, l, begun, ended, returned>>
Next == Event \/ EndRun \/ Finish
Spec == Init /\ [][Next]_vars
====
