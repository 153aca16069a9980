------------------------------- MODULE MCFast -------------------------------
(***************************************************************************)
(* The fast evaluator means what the plain one does: record [toks].        *)
(***************************************************************************)
EXTENDS Judge, FastParser
V(r, ep) == IF FParse(r.toks, 2 * ep) = Parse(r.toks, 2 * ep + 1) THEN "ok" ELSE "FParse and Parse differ"
=============================================================================
