------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* The one-pass definition of Geometry agrees with the declarative one, on *)
(* all small trees with all kinds of reports.                              *)
(***************************************************************************)
EXTENDS Tree, TLC
CONSTANT MaxRows

\* the end of the node that begins at row k
RECURSIVE EndOf(_, _, _)
EndOf(rows, k, depth) ==
  LET d == depth + (IF rows[k][1] = 0 THEN 1 ELSE IF rows[k][1] = -1 THEN -1 ELSE 0) IN
  IF d = 0 THEN k ELSE EndOf(rows, k + 1, d)

Declared(rows) ==
  \A k \in DOMAIN rows : rows[k][1] = 0 =>
    LET ls == Leaves(SubSeq(rows, k, EndOf(rows, k, 0))) IN
    IF ls = <<>> THEN rows[k][3] = 0 /\ rows[k][4] = -1 /\ rows[k][5] = -1
    ELSE /\ rows[k][4] = ls[1][4] /\ rows[k][5] = ls[Len(ls)][5]
         /\ (rows[k][3] = 1) = (\E j \in DOMAIN ls : ls[j][3] = 1)

\* rows so far, the open nodes, the tokens used
VARIABLES rows, open, used
vars == <<rows, open, used>>
Nodes == {<<0, "n", x, s, e>> : x \in {0, 1}, s \in {-1, 0, 2}, e \in {-1, 1, 3}}
Init == rows \in {<<n>> : n \in Nodes} /\ open = 1 /\ used = 0
Next == /\ open > 0 /\ Len(rows) + open < MaxRows + 1
        /\ \/ \E n \in Nodes : Len(rows) + open + 1 < MaxRows /\ rows' = Append(rows, n) /\ open' = open + 1 /\ used' = used
           \/ \E x \in {0, 1} : /\ used < 2 /\ Len(rows) + open < MaxRows
                                /\ rows' = Append(rows, <<used + 1, "l", x, 2 * used, 2 * used + 1>>)
                                /\ used' = used + 1 /\ open' = open
           \/ rows' = Append(rows, <<-1, "", 0, 0, 0>>) /\ open' = open - 1 /\ used' = used
Agree == open = 0 => (Geometry(rows) = Declared(rows))
=============================================================================
