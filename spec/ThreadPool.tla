---- MODULE ThreadPool ----
(* The thread pool as built: a queue protected by a mutex, a condition variable, one executor loop per thread, a ready flag per *)
(* task, and shutdown by flag, broadcast and join. Clients submit their tasks and wait for them; the owner destroys the pool   *)
(* when the clients are done.                                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets

(* observable rules, shared with the recorded executions *)
MayBegin(submitted, begun, t) == t \in submitted /\ t \notin begun
MayEnd(begun, ended, t) == t \in begun /\ t \notin ended
MayWake(ended, t) == t \in ended
(* submission of tasks that are to be served without delay: before - submitted for sure before the task, ever - submitted at all *)
MayAccept(size, before, ended) == Cardinality(before \ ended) < size
MayRefuse(size, ever, t) == Cardinality(ever \ {t}) >= size

CONSTANTS Workers, Clients, PerClient, IfFree, Meet      \* IfFree: tasks are submitted only when a thread can serve them at once; Meet: tasks wait until as many of them as there are threads are running
Tasks == Clients \X (1..PerClient)
VARIABLES mutex, queue, waiting, stop, wpc, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, opc, free, start, refused
vars == <<mutex, queue, waiting, stop, wpc, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, opc, free, start, refused>>
None == <<0, 0>>
Init == /\ mutex = 0 /\ queue = <<>> /\ waiting = {} /\ stop = FALSE
        /\ wpc = [w \in Workers |-> "test"] /\ wtask = [w \in Workers |-> None] /\ wstop = [w \in Workers |-> FALSE]
        /\ cpc = [c \in Clients |-> "add"] /\ ck = [c \in Clients |-> 1]
        /\ ready = {} /\ submitted = {} /\ begun = {} /\ ended = {} /\ woken = {} /\ opc = <<"run", 0>>
        /\ free = Cardinality(Workers) /\ start = Cardinality(Workers) /\ refused = {}

(* executor *)
Test(w) == /\ wpc[w] = "test" /\ wpc' = [wpc EXCEPT ![w] = IF wstop[w] THEN "exit" ELSE "enter"]
           /\ UNCHANGED <<mutex, queue, waiting, stop, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, opc, free, start, refused>>
Take(w) == /\ wpc[w] \in {"enter", "lock"} /\ mutex = 0          \* acquires the mutex, at first counts itself as free, and inspects the queue
           /\ LET back == wpc[w] = "enter" /\ start = 0 f == free + (IF back THEN 1 ELSE 0) IN
              /\ start' = (IF wpc[w] = "enter" /\ start > 0 THEN start - 1 ELSE start)
              /\ IF queue = <<>> /\ ~stop
                 THEN waiting' = waiting \cup {w} /\ wpc' = [wpc EXCEPT ![w] = "sleep"] /\ free' = f /\ UNCHANGED <<queue, wtask>>
                 ELSE /\ waiting' = waiting
                      /\ IF queue # <<>> THEN queue' = Tail(queue) /\ wtask' = [wtask EXCEPT ![w] = Head(queue)] /\ wpc' = [wpc EXCEPT ![w] = "begin"] /\ free' = f - 1
                         ELSE UNCHANGED <<queue, wtask>> /\ wpc' = [wpc EXCEPT ![w] = "exit"] /\ free' = f
           /\ UNCHANGED <<mutex, stop, wstop, cpc, ck, ready, submitted, begun, ended, woken, opc, refused>>
Awake(w) == /\ wpc[w] = "sleep" /\ w \notin waiting /\ wpc' = [wpc EXCEPT ![w] = "lock"]
            /\ UNCHANGED <<mutex, queue, waiting, stop, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, opc, free, start, refused>>
Begin(w) == /\ wpc[w] = "begin" /\ begun' = begun \cup {wtask[w]} /\ wpc' = [wpc EXCEPT ![w] = "end"]
            /\ UNCHANGED <<mutex, queue, waiting, stop, wtask, wstop, cpc, ck, ready, submitted, ended, woken, opc, free, start, refused>>
Enough == LET a == Cardinality(Workers) b == Cardinality(Tasks) IN Cardinality(begun) >= (IF a < b THEN a ELSE b)
End(w) == /\ wpc[w] = "end" /\ (Meet => Enough) /\ ended' = ended \cup {wtask[w]} /\ wpc' = [wpc EXCEPT ![w] = "ready"]
          /\ UNCHANGED <<mutex, queue, waiting, stop, wtask, wstop, cpc, ck, ready, submitted, begun, woken, opc, free, start, refused>>
SetReady(w) == /\ wpc[w] = "ready" /\ ready' = ready \cup {wtask[w]} /\ wpc' = [wpc EXCEPT ![w] = "test"]
               /\ UNCHANGED <<mutex, queue, waiting, stop, wtask, wstop, cpc, ck, submitted, begun, ended, woken, opc, free, start, refused>>
(* client *)
NextOf(c) == IF ck[c] < PerClient THEN ck' = [ck EXCEPT ![c] = @ + 1] /\ cpc' = [cpc EXCEPT ![c] = "add"]
             ELSE ck' = [ck EXCEPT ![c] = 1] /\ cpc' = [cpc EXCEPT ![c] = "wait"]
Add(c) == /\ cpc[c] = "add" /\ mutex = 0
          /\ IF IfFree /\ Len(queue) >= free
             THEN refused' = refused \cup {<<c, ck[c]>>} /\ NextOf(c) /\ UNCHANGED <<queue, submitted>>
             ELSE /\ queue' = Append(queue, <<c, ck[c]>>) /\ submitted' = submitted \cup {<<c, ck[c]>>}
                  /\ cpc' = [cpc EXCEPT ![c] = "notify"] /\ UNCHANGED <<refused, ck>>
          /\ UNCHANGED <<mutex, waiting, stop, wpc, wtask, wstop, ready, begun, ended, woken, opc, free, start>>
Notify(c) == /\ cpc[c] = "notify"
             /\ IF waiting = {} THEN UNCHANGED waiting ELSE \E w \in waiting : waiting' = waiting \ {w}
             /\ NextOf(c)
             /\ UNCHANGED <<mutex, queue, stop, wpc, wtask, wstop, ready, submitted, begun, ended, woken, opc, free, start, refused>>
Wait(c) == /\ cpc[c] = "wait" /\ <<c, ck[c]>> \in ready \cup refused
           /\ woken' = woken \cup ({<<c, ck[c]>>} \ refused)
           /\ IF ck[c] < PerClient THEN ck' = [ck EXCEPT ![c] = @ + 1] /\ UNCHANGED cpc
              ELSE cpc' = [cpc EXCEPT ![c] = "done"] /\ UNCHANGED ck
           /\ UNCHANGED <<mutex, queue, waiting, stop, wpc, wtask, wstop, ready, submitted, begun, ended, opc, free, start, refused>>
(* owner *)
Stop == /\ opc[1] = "run" /\ \A c \in Clients : cpc[c] = "done" /\ mutex = 0 /\ stop' = TRUE /\ opc' = <<"wake", 0>>
        /\ UNCHANGED <<mutex, queue, waiting, wpc, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, free, start, refused>>
Wake == /\ opc[1] = "wake" /\ waiting' = {} /\ opc' = <<"halt", 1>>
        /\ UNCHANGED <<mutex, queue, stop, wpc, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, free, start, refused>>
Halt == /\ opc[1] = "halt" /\ wstop' = [wstop EXCEPT ![opc[2]] = TRUE] /\ opc' = <<"join", opc[2]>>
        /\ UNCHANGED <<mutex, queue, waiting, stop, wpc, wtask, cpc, ck, ready, submitted, begun, ended, woken, free, start, refused>>
Join == /\ opc[1] = "join" /\ wpc[opc[2]] = "exit"
        /\ opc' = IF opc[2] + 1 \in Workers THEN <<"halt", opc[2] + 1>> ELSE <<"gone", 0>>
        /\ UNCHANGED <<mutex, queue, waiting, stop, wpc, wtask, wstop, cpc, ck, ready, submitted, begun, ended, woken, free, start, refused>>
Worker(w) == Test(w) \/ Take(w) \/ Awake(w) \/ Begin(w) \/ End(w) \/ SetReady(w)
Client(c) == Add(c) \/ Notify(c) \/ Wait(c)
Owner == Stop \/ Wake \/ Halt \/ Join
Next == Owner \/ (\E w \in Workers : Worker(w)) \/ (\E c \in Clients : Client(c))
Spec == Init /\ [][Next]_vars /\ WF_vars(Owner) /\ (\A w \in Workers : WF_vars(Worker(w))) /\ (\A c \in Clients : WF_vars(Client(c)))
Legal == [][ /\ \A t \in begun' \ begun : MayBegin(submitted, begun, t)
             /\ \A t \in ended' \ ended : MayEnd(begun, ended, t)
             /\ \A t \in woken' \ woken : MayWake(ended, t)
             /\ IfFree => \A t \in submitted' \ submitted : MayAccept(Cardinality(Workers), submitted, ended)
             /\ \A t \in refused' \ refused : MayRefuse(Cardinality(Workers), submitted \cup {t}, t) ]_vars
Exclusive == \A v, w \in Workers : v # w /\ wpc[v] \in {"begin", "end"} /\ wpc[w] \in {"begin", "end"} => wtask[v] # wtask[w]
AllDone == opc[1] = "gone" => ended = Tasks \ refused /\ woken = Tasks \ refused
Served == IfFree => Len(queue) + Cardinality({w \in Workers : wpc[w] \in {"begin", "end", "ready"}}) <= Cardinality(Workers)
Counted == free \in 0..Cardinality(Workers) /\ (~IfFree => refused = {})
Terminates == <>(opc[1] = "gone")
====
