------------------------------- MODULE Val16 -------------------------------
(***************************************************************************)
(* C16: record [toks, ok, at, names, leaves, plain]: a token sequence with *)
(* magic words, as for ValP; plain is the record of the sequence with      *)
(* plain words in place of the magic constructs.  If that one is already   *)
(* parsed wrongly, the magic words are not to blame.                       *)
(***************************************************************************)
EXTENDS ValP

Conforms(r, ep) == LET v == V(r, ep) IN v = "ok" \/ SubSeq(v, 1, 3) = "C15"
V16(r, ep) == IF Conforms(r, 2 * ep) \/ ~Conforms(r.plain, 2 * ep + 1) THEN "ok" ELSE "C16: " \o V(r, 2 * ep)
=============================================================================
