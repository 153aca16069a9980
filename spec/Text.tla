-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts.  A text is a sequence of characters: printable ASCII characters  *)
(* as themselves, any other as its code point in hexadecimal: "<9>".       *)
(* A span is <<s, e>>: the characters s, ..., e - 1.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Separators == {".", "<9>", "<a>", "<d>", "?", "!", " "}
SeparatorCodes == {46, 9, 10, 13, 63, 33, 32}   \* the same, by number
Comma      == ","

Piece(cs, sp) == SubSeq(cs, sp[1], sp[2] - 1)
NoCommas(w)   == SelectSeq(w, LAMBDA c : c # Comma)
OneH(w)       == [k \in DOMAIN w |-> IF w[k] = "h" THEN "'" ELSE w[k]]
\* the letters of a stretch, whatever its spelling
Letters(w)    == OneH(NoCommas(w))
Shift(sp, d)  == <<sp[1] + d, sp[2] + d>>

\* the stretches between separators, empty ones included: n separators delimit n + 1 stretches
Chunks(cs) ==
  LET sp == SelectSeq([k \in 1..Len(cs) |-> k], LAMBDA k : cs[k] \in Separators) IN
  [k \in 1..(Len(sp) + 1) |-> <<IF k = 1 THEN 1 ELSE sp[k - 1] + 1,
                                IF k <= Len(sp) THEN sp[k] ELSE Len(cs) + 1>>]
\* a stretch with no letters in it contains no words
Blank(cs, ch) == \A i \in ch[1]..(ch[2] - 1) : cs[i] = Comma

RECURSIVE LastLetter(_, _, _)
LastLetter(cs, s, e) == IF e > s /\ cs[e - 1] = Comma THEN LastLetter(cs, s, e - 1) ELSE e
\* the stretch without the commas at its end
Trimmed(cs, ch) == <<ch[1], LastLetter(cs, ch[1], ch[2])>>

\* --- what every decomposition ws of cs must satisfy (C01) --------------------
InText(cs, sp)  == 1 <= sp[1] /\ sp[1] < sp[2] /\ sp[2] <= Len(cs) + 1
Ordered(ws)     == \A k \in 1..(Len(ws) - 1) : ws[k][2] <= ws[k + 1][1]
Covered(ws, i)  == \E k \in DOMAIN ws : ws[k][1] <= i /\ i < ws[k][2]
Faithful(cs, ws) ==
  /\ \A k \in DOMAIN ws : InText(cs, ws[k])
  /\ Ordered(ws)
  /\ \A i \in DOMAIN cs :
       IF Covered(ws, i) THEN cs[i] \notin Separators
       ELSE cs[i] \in Separators \cup {Comma}

\* --- the words of each stretch: grouping a sequence of words by stretch ---------
WordsIn(ws, ch) == SelectSeq(ws, LAMBDA w : ch[1] <= w[1] /\ w[1] < ch[2])
Grouped(ws, chunks) == [k \in DOMAIN chunks |-> WordsIn(ws, chunks[k])]
=============================================================================
