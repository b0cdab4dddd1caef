---- MODULE Crossing ----
(* What crosses between Python and the C++ core: nested containers packed into packages and unpacked on the other side, and the decision whether there is a       *)
(* workable core at all.                                                                                                                                       *)
(*                                                                                                                                                             *)
(* State: the value on the user's side, its package, the vectors of the core, the package that comes back, and the value the user gets; each step is one        *)
(* conversion.  The loader goes through the checks of the library one after another.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- packages ------------------------------------------------------------------------------------------------------------------------------------------------ *)
(* a value is [list |-> TRUE, v |-> sequence of values] or [list |-> FALSE, v |-> scalar]; a package is [type, size, data]                                        *)
Leaf(x) == [list |-> FALSE, v |-> x]
Node(s) == [list |-> TRUE, v |-> s]
TypeOf(value, scalar) == IF value.v = <<>> THEN "undefined" ELSE IF value.v[1].list THEN "list" ELSE scalar
RECURSIVE Pack(_, _)
Pack(value, scalar) == LET t == TypeOf(value, scalar) IN
    [type |-> t, size |-> Len(value.v), data |-> [i \in 1..Len(value.v) |-> IF t = "list" THEN Pack(value.v[i], scalar) ELSE value.v[i].v]]
RECURSIVE Unpack(_)
Unpack(p) == Node([i \in 1..p.size |-> IF p.type = "list" THEN Unpack(p.data[i]) ELSE Leaf(p.data[i])])
(* the core: vectors of scalars, and vectors of vectors of scalars; empty inner packages may have any type *)
Readable1(p) == p.type # "list"
Readable2(p) == p.type = "list" /\ \A i \in 1..p.size : Readable1(p.data[i])
Read1(p) == p.data
Read2(p) == [i \in 1..p.size |-> Read1(p.data[i])]
Create1(v, scalar) == [type |-> scalar, size |-> Len(v), data |-> v]
Create2(v, scalar) == [type |-> "list", size |-> Len(v), data |-> [i \in 1..Len(v) |-> Create1(v[i], scalar)]]
RECURSIVE Depth(_)
Depth(value) == IF ~value.list THEN 0 ELSE IF value.v = <<>> THEN 1 ELSE LET d == {Depth(value.v[i]) : i \in 1..Len(value.v)} IN 1 + (CHOOSE m \in d : \A x \in d : x <= m)

(* ---- loader ----------------------------------------------------------------------------------------------------------------------------------------------- *)
(* a library file: supported platform, there, can be loaded, tells its interface, has the version of this package *)
Checks == <<"supported", "there", "loads", "interface", "version">>
Workable(file) == \A i \in 1..5 : file[Checks[i]]

(* ---- transition system --------------------------------------------------------------------------------------------------------------------------------------- *)
CONSTANTS Scalars, MaxLen, Modes
VARIABLES mode, stage, value, package, vector, back, result, file, at
vars == <<mode, stage, value, package, vector, back, result, file, at>>
Flat == UNION {[1..n -> {Leaf(x) : x \in Scalars}] : n \in 0..MaxLen}
Rows == {Node(s) : s \in Flat}
Values == Rows \cup {Node(s) : s \in UNION {[1..n -> Rows] : n \in 1..MaxLen}}
Deep == {Node(<<r, Node(<<>>)>>) : r \in Values} \cup {Node(<<r>>) : r \in Values}
Files == {f \in [{"supported", "there", "loads", "interface", "version"} -> BOOLEAN] : \A i \in 1..4 : ~f[Checks[i]] => ~f[Checks[i + 1]]}
Init == /\ mode \in Modes /\ package = <<>> /\ vector = <<>> /\ back = <<>> /\ result = <<>>
        /\ IF mode = "loader" THEN value = <<>> /\ file \in Files /\ at = 1 /\ stage = "checking"
           ELSE value \in (IF mode = "core" THEN Values ELSE Values \cup Deep) /\ file = <<>> /\ at = 0 /\ stage = "given"
Build == mode # "loader" /\ stage = "given" /\ package' = Pack(value, "double") /\ stage' = "packed" /\ UNCHANGED <<mode, value, vector, back, result, file, at>>
Enter == /\ mode = "core" /\ stage = "packed" /\ stage' = "inside" /\ UNCHANGED <<mode, value, package, back, result, file, at>>
         /\ IF Depth(value) = 2 THEN Readable2(package) /\ vector' = Read2(package) ELSE Readable1(package) /\ vector' = Read1(package)
Leave == /\ stage = "inside" /\ stage' = "returned" /\ UNCHANGED <<mode, value, package, vector, result, file, at>>
         /\ back' = (IF Depth(value) = 2 THEN Create2(vector, "double") ELSE Create1(vector, "double"))
Extract == /\ \/ mode = "core" /\ stage = "returned" /\ result' = Unpack(back)
              \/ mode = "python" /\ stage = "packed" /\ result' = Unpack(package)
           /\ stage' = "extracted" /\ UNCHANGED <<mode, value, package, vector, back, file, at>>
Examine == /\ mode = "loader" /\ stage = "checking"
           /\ IF ~file[Checks[at]] THEN stage' = "python" /\ UNCHANGED at ELSE IF at = 5 THEN stage' = "core" /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED stage
           /\ UNCHANGED <<mode, value, package, vector, back, result, file>>
Next == Build \/ Enter \/ Leave \/ Extract \/ Examine
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Nothing == stage = "extracted" => result = value
Arrives == mode # "loader" => <>(stage = "extracted")
Decides == mode = "loader" => <>(stage \in {"core", "python"})
Right == stage \in {"core", "python"} => (stage = "core" <=> Workable(file))
====
