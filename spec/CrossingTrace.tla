---- MODULE CrossingTrace ----
(* Recorded crossings.  kind package: value, scalar, path (python: built and extracted by Python; core: through vectors of the core), pack (the package as Python   *)
(* built it), out; container: a container of the core with two values; text: length of a message and what arrived.  kind cores: results of an algorithm with and   *)
(* without the core over data without ties.  kind loader: a library file, what is said about it, and results of algorithms asked to use it.                        *)
EXTENDS TraceBase, Geom
M == INSTANCE Crossing WITH Scalars <- {}, MaxLen <- 0, Modes <- {}, mode <- 0, stage <- 0, value <- 0, package <- 0, vector <- 0, back <- 0, result <- 0, file <- 0, at <- 0
VARIABLES tid, stage, package, vector, back
vars == <<tid, stage, package, vector, back>>
T == Traces[tid]
Init == tid \in 1..NTraces /\ stage = "given" /\ package = <<>> /\ vector = <<>> /\ back = <<>>
Stop(why) == Verdict(tid, 0, why) /\ stage' = "end" /\ UNCHANGED <<tid, package, vector, back>>
RECURSIVE Same(_, _)
Same(a, b) == a.list = b.list /\ IF a.list THEN Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i]) ELSE a.v = b.v
RECURSIVE SamePack(_, _)
SamePack(p, q) == p.size = q.size /\ (p.size = 0 \/ p.type = q.type) /\ IF p.size = 0 THEN TRUE ELSE IF p.type = "list" THEN \A i \in 1..p.size : SamePack(p.data[i], q.data[i]) ELSE p.data = q.data
Build == /\ stage = "given" /\ T.kind = "package"
         /\ LET p == M!Pack(T.value, T.scalar) IN
            IF ~SamePack(p, T.pack) THEN Stop("package differs from the value")
            ELSE package' = p /\ stage' = (IF T.path = "python" THEN "returned" ELSE "packed") /\ back' = p /\ UNCHANGED <<tid, vector>>
Enter == /\ stage = "packed" /\ UNCHANGED <<tid, package, back>> /\ stage' = "inside"
         /\ vector' = (IF M!Depth(T.value) = 2 THEN M!Read2(package) ELSE M!Read1(package))
Leave == /\ stage = "inside" /\ UNCHANGED <<tid, package, vector>> /\ stage' = "returned"
         /\ back' = (IF M!Depth(T.value) = 2 THEN M!Create2(vector, T.scalar) ELSE M!Create1(vector, T.scalar))
Extract == /\ stage = "returned"
           /\ Stop(IF ~Same(M!Unpack(back), T.value) THEN "value does not survive by the specification" ELSE IF ~Same(T.out, T.value) THEN "value is changed by crossing" ELSE "")
Text == stage = "given" /\ T.kind = "text" /\ Stop(IF T.out # T.value THEN "message is changed by crossing" ELSE "")
Canon(C) == {Range(C[a]) : a \in DOMAIN C}
Near(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Abs(u[i] - v[i]) <= 2
Cores == /\ stage = "given" /\ T.kind = "cores"
         /\ Stop(IF Len(T.py.clusters) # Len(T.cpp.clusters) THEN "the cores find different numbers of clusters"
                 ELSE IF Canon(T.py.clusters) # Canon(T.cpp.clusters) THEN "the cores find different clusters"
                 ELSE IF Range(T.py.noise) # Range(T.cpp.noise) THEN "the cores find different noise"
                 ELSE IF ~Near(T.py.numbers, T.cpp.numbers) THEN "the cores report different numbers"
                 ELSE "")
Loader == /\ stage = "given" /\ T.kind = "loader"
          /\ Stop(IF T.crash THEN "an algorithm does not run without a workable core"
                  ELSE IF T.workable # M!Workable(T.file) THEN "library is judged wrongly"
                  ELSE IF \E r \in Range(T.runs) : Canon(r.asked) # Canon(r.python) THEN "falling back gives another answer"
                  ELSE "")
Next == Build \/ Enter \/ Leave \/ Extract \/ Text \/ Cores \/ Loader
Spec == Init /\ [][Next]_vars
====
