---- MODULE TraceBase ----
(* Recorded executions of the real code, one JSON object per line of the file named by the         *)
(* environment variable TRACE_FILE, and the two verdicts.  Every trace is one initial state of the *)
(* trace specification, so TLC validates all of them in one run.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)

Accept(t) == PrintT(<<"@ACCEPT", t>>)
Reject(t, step, why) == PrintT(<<"@REJECT", t, step, why>>)
Verdict(t, step, why) == IF why = "" THEN Accept(t) ELSE Reject(t, step, why)
====
