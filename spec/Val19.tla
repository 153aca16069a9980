------------------------------- MODULE Val19 -------------------------------
(***************************************************************************)
(* C19: record [things, ops]: things with their results when used alone    *)
(* (those of a text to decompose as [kind, cs, words]), and the requests   *)
(* <<thing, op, answer>> of a session.  The session must be a behaviour of *)
(* Sessions.tla.                                                           *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Text, Sessions

Records == ndJsonDeserialize(IOEnv.TRACE)
Things  == [i \in DOMAIN Records |->
              [k \in DOMAIN Records[i].things |->
                 LET th == Records[i].things[k] IN
                 IF th.kind = "D" THEN LET ch == Chunks(th.cs) IN
                                       [kind |-> "D", chunks |-> ch, words |-> Grouped(th.words, ch)]
                 ELSE th]]

VARIABLES i, at, s, verdict
vars == <<i, at, s, verdict>>

Init == /\ i \in DOMAIN Records /\ at = 0 /\ verdict = "ok"
        /\ s = [k \in DOMAIN Things[i] |-> SStart(Things[i][k])]
Next == /\ verdict = "ok" /\ at < Len(Records[i].ops)
        /\ at' = at + 1 /\ i' = i
        /\ LET o == Records[i].ops[at + 1]
               r == SRequest(Things[i][o[1]], s[o[1]], o[2])
           IN /\ s' = [s EXCEPT ![o[1]] = r[1]]
              /\ verdict' = IF r[2] = o[3] THEN "ok" ELSE "bad"
              /\ IF verdict' = "ok" THEN TRUE
                 ELSE PrintT(<<"BAD", Records[i].id, "request " \o ToString(at') \o " (" \o o[2] \o
                               ") is answered otherwise than by itself">>)
=============================================================================
