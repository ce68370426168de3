----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Frame of the trace modules for independent events: each recorded event  *)
(* of the file named by the environment variable TRACE is judged on its    *)
(* own.  i is the number of the event, out the set of the failing clauses. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Ev == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[j] : j \in DOMAIN s}
If(cond, name) == IF cond THEN {name} ELSE {}
=============================================================================
