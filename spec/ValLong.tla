------------------------------ MODULE ValLong ------------------------------
(***************************************************************************)
(* C03 for long texts: record [n, offs, lens, firsts, alone, words]: a     *)
(* text of n characters; of each of its stretches where it starts, how     *)
(* long it is, how many words come before it, and its words when alone;    *)
(* and the words of the text.                                              *)
(***************************************************************************)
EXTENDS Judge, Text
WellFormed(r) ==
  LET m == Len(r.offs) IN
  /\ r.offs[1] = 1 /\ r.firsts[1] = 0
  /\ \A j \in 1..(m - 1) : /\ r.offs[j + 1] = r.offs[j] + r.lens[j] + 1
                           /\ r.firsts[j + 1] = r.firsts[j] + Len(r.alone[j])
  /\ r.offs[m] + r.lens[m] = r.n + 1
V(r, k) ==
  IF ~Assert(WellFormed(r), "bad record") THEN "bad record"
  ELSE IF Len(r.words) # r.firsts[Len(r.firsts)] + Len(r.alone[Len(r.alone)]) THEN "more or fewer words than in the stretches taken alone"
  ELSE IF \E j \in DOMAIN r.offs : \E m \in DOMAIN r.alone[j] : r.words[r.firsts[j] + m] # Shift(r.alone[j][m], r.offs[j] - 1)
       THEN "words are not those of the stretches taken alone"
  ELSE "ok"
=============================================================================
