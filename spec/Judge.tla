------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Validation of recorded behaviour: every record of the trace file (one   *)
(* JSON object per line) becomes an initial state, and one step gives the  *)
(* verdict on it: "ok", or why the specification does not allow it.        *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Integers, Sequences

CONSTANT Verdict(_, _)     \* Verdict(record, number): number is unique, for the memory of parsers

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, verdict
jvars == <<i, verdict>>

JInit == i \in 1..Len(Records) /\ verdict = "pending"
JNext == /\ verdict = "pending"
         /\ \E v \in {Verdict(Records[i], i)} :
              /\ verdict' = v
              /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", Records[i].id, v>>)
         /\ UNCHANGED i
=============================================================================
