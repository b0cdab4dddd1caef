---- MODULE ThreadPoolTrace ----
(* Record: size, runs = event sequences of all schedules explored: 5 task handed over, 11 (12: as one to be served at once) accepted, 10 refused, 1 begins, 2 ends, 6 wait called,    *)
(* 7 wait returned, 8 destruction starts, 3 destroyed, 4 nothing can go on, 9 wrong size.                                               *)
EXTENDS TraceBase
P == INSTANCE ThreadPool WITH Workers <- {}, Clients <- {}, PerClient <- 0, IfFree <- FALSE, Meet <- FALSE, mutex <- 0, queue <- <<>>, waiting <- {}, stop <- FALSE, wpc <- <<>>,
       wtask <- <<>>, wstop <- <<>>, cpc <- <<>>, ck <- <<>>, ready <- {}, submitted <- {}, begun <- {}, ended <- {}, woken <- {}, opc <- <<>>, free <- 0, start <- 0, refused <- {}
VARIABLES tid, run, l, submitted, begun, ended, pending, gone, added, before, ever
vars == <<tid, run, l, submitted, begun, ended, pending, gone, added, before, ever>>
T == Traces[tid]
Init == tid \in 1..NTraces /\ run = 1 /\ l = 1 /\ submitted = {} /\ begun = {} /\ ended = {} /\ pending = 0 /\ gone = FALSE /\ added = {} /\ before = <<>> /\ ever = {}
Why(e) == CASE gone -> "something happens after the pool is gone"
            [] e[1] \in {5, 11} -> ""
            [] e[1] = 10 -> IF e[2] \in begun THEN "a refused task is executed"
                            ELSE IF ~P!MayRefuse(T.size, ever, e[2]) THEN "a task is refused although there is a thread that has nothing to do" ELSE ""
            [] e[1] = 12 -> IF P!MayAccept(T.size, before[e[2]], ended) THEN "" ELSE "a task is accepted although no thread can serve it at once"
            [] e[1] = 1 -> IF P!MayBegin(submitted, begun, e[2]) THEN "" ELSE "a task is executed twice or was never handed over"
            [] e[1] = 2 -> IF P!MayEnd(begun, ended, e[2]) THEN "" ELSE "a task ends without beginning"
            [] e[1] = 6 -> ""
            [] e[1] = 7 -> IF P!MayWake(ended, e[2]) THEN "" ELSE "waiting returned before the task was executed"
            [] e[1] = 8 -> ""
            [] e[1] = 3 -> IF ended = submitted /\ pending = 0 THEN "" ELSE "the pool is gone while tasks were not executed"
            [] e[1] = 9 -> "the pool does not report its size"
            [] OTHER -> IF pending > 0 THEN "waiting for a task never returns" ELSE "the pool cannot make progress"
Event == /\ run > 0 /\ run <= Len(T.runs) /\ l <= Len(T.runs[run])
         /\ LET e == T.runs[run][l] w == Why(e) IN
            IF w # "" THEN Reject(tid, l, w) /\ run' = -1 /\ UNCHANGED <<l, submitted, begun, ended, pending, gone, added, before, ever>>
            ELSE /\ l' = l + 1 /\ run' = run
                 /\ submitted' = (CASE e[1] = 5 -> submitted \cup {e[2]} [] e[1] = 10 -> submitted \ {e[2]} [] OTHER -> submitted)
                 /\ begun' = (IF e[1] = 1 THEN begun \cup {e[2]} ELSE begun)
                 /\ ended' = (IF e[1] = 2 THEN ended \cup {e[2]} ELSE ended)
                 /\ pending' = (CASE e[1] = 6 -> pending + 1 [] e[1] = 7 -> pending - 1 [] OTHER -> pending)
                 /\ added' = (IF e[1] \in {11, 12} THEN added \cup {e[2]} ELSE added)
                 /\ before' = (IF e[1] = 5 THEN (e[2] :> added) @@ before ELSE before)
                 /\ ever' = (CASE e[1] = 5 -> ever \cup {e[2]} [] e[1] = 10 -> ever \ {e[2]} [] OTHER -> ever)
                 /\ gone' = (e[1] = 3)
         /\ tid' = tid
EndRun == /\ run > 0 /\ run <= Len(T.runs) /\ l > Len(T.runs[run])
          /\ IF gone THEN run' = run + 1 ELSE Reject(tid, l, "the pool was not destroyed") /\ run' = -1
          /\ l' = 1 /\ submitted' = {} /\ begun' = {} /\ ended' = {} /\ pending' = 0 /\ gone' = FALSE /\ tid' = tid /\ added' = {} /\ before' = <<>> /\ ever' = {}
Finish == run = Len(T.runs) + 1 /\ run' = -2 /\ Accept(tid) /\ UNCHANGED <<tid, l, submitted, begun, ended, pending, gone, added, before, ever>>
Next == Event \/ EndRun \/ Finish
Spec == Init /\ [][Next]_vars
====
