----------------------------- MODULE MCSessions -----------------------------
(***************************************************************************)
(* Non-interference: in any session the answers to one thing are those of  *)
(* the session without the others.                                         *)
(***************************************************************************)
EXTENDS Sessions, TLC
CONSTANT Depth
Things == << [kind |-> "D", chunks |-> <<<<1, 6>>, <<7, 9>>>>, words |-> <<<<<<1, 3>>, <<3, 6>>>>, <<<<7, 9>>>>>>],
             [kind |-> "L", items |-> <<"a", "b">>],
             [kind |-> "P", result |-> "tree"],
             [kind |-> "W", result |-> "class"] >>
Requests(th) == CASE th.kind = "D" -> {"n", "q", "c", "r", "a"} [] th.kind = "L" -> {"n", "r", "a"}
                  [] th.kind = "P" -> {"p", "t", "a"} [] th.kind = "W" -> {"w", "a"}
VARIABLES s, hist
vars == <<s, hist>>
Init == s = [k \in DOMAIN Things |-> SStart(Things[k])] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in DOMAIN Things : \E op \in Requests(Things[k]) :
             LET r == SRequest(Things[k], s[k], op) IN
             /\ s' = [s EXCEPT ![k] = r[1]]
             /\ hist' = Append(hist, <<k, op, r[2]>>)
RECURSIVE Alone(_, _, _, _)
Alone(k, st, h, j) == IF j > Len(h) THEN TRUE
                      ELSE LET r == SRequest(Things[k], st, h[j][2]) IN r[2] = h[j][3] /\ Alone(k, r[1], h, j + 1)
NonInterference == \A k \in DOMAIN Things :
                     LET Mine(x) == x[1] = k IN Alone(k, SStart(Things[k]), SelectSeq(hist, Mine), 1)
=============================================================================
