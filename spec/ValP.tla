-------------------------------- MODULE ValP --------------------------------
(***************************************************************************)
(* C13-C16: record [toks, ok, at, expected, met, names, leaves]: a token   *)
(* sequence (the classes), whether the parser accepted it, the token at    *)
(* which it located the error if not, which classes of word the error says *)
(* were expected (if it does) and whether the token it says was met is the *)
(* one there; and the tree if so: the names of its nodes in prefix form,   *)
(* with "@" for a leaf and "" after the children of a node; and for each   *)
(* leaf which token it is.  The names of leaves are not compared: of them  *)
(* only those of a delimited quotation do not follow from the token.       *)
(***************************************************************************)
EXTENDS Judge, FastParser

RECURSIVE NamesOf(_), LeavesOf(_)
NamesOf(t)  == IF t[2] > 0 THEN IF t[1] \in {"ZoiDelimiter", "ZoiText"} THEN <<t[1]>> ELSE <<"@">>
               ELSE <<t[1]>> \o FlattenSeq([k \in DOMAIN t[3] |-> NamesOf(t[3][k])]) \o <<"">>
LeavesOf(t) == IF t[2] > 0 THEN <<t[2]>> ELSE FlattenSeq([k \in DOMAIN t[3] |-> LeavesOf(t[3][k])])

V(r, ep) ==
  LET p == FParse(r.toks, ep) IN
  IF p.ok # (r.ok = 1) THEN IF p.ok THEN "C13 rejected, though it is grammatical" ELSE "C13 accepted, though it is not grammatical"
  ELSE IF p.ok THEN IF NamesOf(p.tree) = r.names /\ LeavesOf(p.tree) = r.leaves THEN "ok"
                    ELSE "C14 the tree is not that of the grammar"
  ELSE IF p.at # r.at THEN "C15 the error is not at token " \o ToString(p.at)
  ELSE IF p.missing # "" /\ (\A k \in DOMAIN r.expected : r.expected[k] # p.missing) THEN "C15 the error does not say that " \o p.missing \o " is missing"
  ELSE IF r.expected # <<>> /\ r.met # 1 THEN "C15 the error does not name the token met"
  ELSE IF p.at <= Len(r.toks) /\ \E k \in DOMAIN r.expected : r.expected[k] = r.toks[p.at] THEN "C15 the error names as expected what is there"
  ELSE "ok"
=============================================================================
