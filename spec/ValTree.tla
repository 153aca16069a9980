------------------------------- MODULE ValTree -------------------------------
(***************************************************************************)
(* C11, C12: record [toks, rows]: the tokens <<class, exp, start, end>> of *)
(* an accepted text and its tree as reported through the node interface    *)
(* (see Tree.tla).                                                         *)
(***************************************************************************)
EXTENDS Judge, Tree, SelmahoData
V(r, k) == IF ~Lossless(r.rows, r.toks, SelmahoRepr) THEN "C11 the leaves are not the tokens"
           ELSE IF ~Geometry(r.rows) THEN "C12 a node misreports its extent or experimental mark"
           ELSE "ok"
=============================================================================
