-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Syntax trees as seen through the node interface, in prefix form: rows   *)
(*   <<k, name, exp, start, end>>   a leaf, k >= 1 the token it stands for *)
(*                                  (-2 if it is at no token's place)      *)
(*   <<0, name, exp, start, end>>   a node, its children up to the         *)
(*   <<-1, "", 0, 0, 0>>            matching end                           *)
(* start = end = -1 for "no location".                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

IsLeaf(r) == r[1] \notin {0, -1}
Leaves(rows) == SelectSeq(rows, IsLeaf)

\* --- C11: leaves are the tokens; tokens are <<class, exp, start, end>> ------------
\* a leaf of a zoi quotation bears the name of its role
LeafFits(r, k, tok, repr) ==
  /\ r[1] = k
  /\ r[4] = tok[3] /\ r[5] = tok[4]
  /\ \/ r[2] = repr[tok[1]] /\ r[3] = tok[2]
     \/ r[2] \in {"ZoiDelimiter", "ZoiText"}
Lossless(rows, toks, repr) ==
  LET ls == Leaves(rows) IN
  /\ Len(ls) = Len(toks)
  /\ \A k \in DOMAIN ls : LeafFits(ls[k], k, toks[k], repr)

\* --- C12: nodes report the hull of their leaves, and whether one is experimental ----
\* A stack of <<exp, start, end>> gathered so far / as reported; ok: no node lied.
Enter(r) == [exp |-> 0, s |-> -1, e |-> -1, row |-> r]
Absorb(top, exp, s, e) ==
  [top EXCEPT !.exp = IF exp = 1 THEN 1 ELSE @, !.s = IF @ = -1 THEN s ELSE @, !.e = IF e = -1 THEN @ ELSE e]
GeoStep(acc, r) ==
  LET st == acc.stack IN
  IF r[1] = 0 THEN [acc EXCEPT !.stack = Append(st, Enter(r))]
  ELSE IF r[1] = -1 THEN
    LET top  == st[Len(st)]
        rest == SubSeq(st, 1, Len(st) - 1)
        good == top.row[3] = top.exp /\ top.row[4] = top.s /\ top.row[5] = top.e IN
    [ok |-> acc.ok /\ good,
     stack |-> IF rest = <<>> THEN <<>>
               ELSE [rest EXCEPT ![Len(rest)] = Absorb(@, top.exp, top.s, top.e)]]
  ELSE IF st = <<>> THEN acc
  ELSE [acc EXCEPT !.stack = [st EXCEPT ![Len(st)] = Absorb(@, r[3], r[4], r[5])]]
Geometry(rows) == FoldLeft(GeoStep, [ok |-> TRUE, stack |-> <<>>], rows).ok
=============================================================================
