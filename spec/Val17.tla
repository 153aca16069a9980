------------------------------- MODULE Val17 -------------------------------
(***************************************************************************)
(* C17: record [op, n, answer]: an operation on n bytes of text, or n      *)
(* tokens, that was answered (unanswered ones never get here; they are     *)
(* violations already); the answer must be one.                            *)
(***************************************************************************)
EXTENDS Judge, Words

Class   == DOMAIN SelmahoRepr
SpanIn(s, n) == 0 <= s[1] /\ s[1] <= s[2] /\ s[2] <= n
WordIn(w, n) == SpanIn(w, n) /\ w[1] < w[2] /\ w[3] \in Class /\ w[4] \in {0, 1}
Errors  == {"MissingSeparator", "Unclosed", "PauseEof"}
ItemIn(x, n) == IF Len(x) = 4 THEN x[1] \in Class /\ x[2] \in {0, 1} /\ SpanIn(<<x[3], x[4]>>, n)
                ELSE x[1] \in Errors /\ SpanIn(<<x[3], x[4]>>, n) /\ SpanIn(<<x[5], x[6]>>, n)
All(s, Is(_)) == \A k \in DOMAIN s : Is(s[k])

V(r, k) ==
  IF CASE r.op = "W" -> r.answer[1] \in Class /\ r.answer[2] \in {0, 1}
       [] r.op = "DC" -> LET Is(w) == WordIn(w, r.n) IN All(r.answer, Is)
       [] r.op = "X" -> LET Is(x) == ItemIn(x, r.n) IN
                        /\ All(r.answer.items, Is)
                        /\ (\E j \in DOMAIN r.answer.items : Len(r.answer.items[j]) # 4) <=> r.answer.lexok = 0
                        /\ r.answer.ok = 1 => r.answer.lexok = 1 /\ r.answer.at = 0
                        /\ r.answer.ok = 0 /\ r.answer.lexok = 1 => r.answer.at \in 1..(Len(r.answer.items) + 1)
       [] r.op = "P" -> IF r.answer[1] = 1 THEN r.answer[2] = 0 ELSE r.answer[2] \in 1..(r.n + 1)
       [] r.op = "KD" -> \E d \in 0..9 : SubSeq(r.answer, 1, 1) = ToString(d)
       [] r.op = "KW" -> r.answer \in Class
       [] r.op = "KP" -> r.answer \in {"0", "1"}
       [] r.op = "L" -> LET Is(x) == ItemIn(x, r.n) IN All(r.answer, Is)
  THEN "ok" ELSE "the answer of '" \o r.op \o "' is none"
=============================================================================
