------------------------------- MODULE Val05 -------------------------------
(***************************************************************************)
(* C05: record [cs, words, ops]: a text, its words by plain iteration, and *)
(* a history of requests <<op, answer>> on a fresh decomposer.  Every      *)
(* request is one step of the machine of Decomposer.tla; the history must  *)
(* be one of its behaviours.                                               *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Text, Decomposer

Records == ndJsonDeserialize(IOEnv.TRACE)
Texts   == [i \in DOMAIN Records |->
              LET ch == Chunks(Records[i].cs) IN
              [chunks |-> ch, words |-> Grouped(Records[i].words, ch)]]

VARIABLES i, at, d, verdict
vars == <<i, at, d, verdict>>

Init == i \in DOMAIN Records /\ at = 0 /\ d = DStart /\ verdict = "ok"

\* requests for the word after some others
Skip  == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE k \in 0..9 : ToString(k) = x]
Skips == DOMAIN Skip

Answer(op, ans) ==
  CASE op = "n" -> LET r == DWord(Texts[i], d) IN
                   /\ d' = r[1]
                   /\ verdict' = IF r[2] = ans THEN "ok" ELSE "a word request"
    [] op \in Skips -> LET r == DNth(Texts[i], d, Skip[op]) IN
                   /\ d' = r[1]
                   /\ verdict' = IF r[2] = ans THEN "ok" ELSE "a request to skip words"
    [] op = "q" -> LET r == DRaw(Texts[i], d) IN
                   /\ d' = r[1]
                   /\ verdict' = IF r[2] = ans THEN "ok" ELSE "a raw request"
    [] op = "h" -> /\ d' = d
                   /\ verdict' = IF DHintOk(Texts[i], d, ans) THEN "ok" ELSE "a size hint"
    [] op = "c" -> /\ d' = d
                   /\ verdict' = IF ans = DWords(Texts[i], d) THEN "ok" ELSE "a clone"
    [] op = "f" -> /\ d' = d
                   /\ verdict' = IF ans = DWords(Texts[i], d) THEN "ok" ELSE "a clone, asked for all words at once,"
    [] op = "z" -> /\ d' = d
                   /\ verdict' = IF ans = <<DLeft(Texts[i], d)>> THEN "ok" ELSE "a clone, asked how many words there are,"
    [] op = "l" -> /\ d' = d
                   /\ verdict' = LET w == DWords(Texts[i], d) IN
                                 IF ans = (IF w = <<>> THEN <<>> ELSE w[Len(w)]) THEN "ok" ELSE "a clone, asked for the last word,"
    [] op = "k" -> /\ d' = d
                   /\ verdict' = IF ans = DRaws(Texts[i], d) THEN "ok" ELSE "a clone, asked for stretches,"

Next == /\ verdict = "ok" /\ at < Len(Records[i].ops)
        /\ at' = at + 1 /\ i' = i
        /\ Answer(Records[i].ops[at + 1][1], Records[i].ops[at + 1][2])
        /\ IF verdict' = "ok" THEN TRUE
           ELSE PrintT(<<"BAD", Records[i].id, verdict' \o " is answered wrongly (request " \o ToString(at') \o ")">>)
=============================================================================
