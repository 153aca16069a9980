------------------------------- MODULE Val03 -------------------------------
\* C03: record [cs, words, parts]: a text, and for each of its stretches <<characters, words when alone>>
EXTENDS Judge, Text
V(r, k) ==
  IF DOMAIN r = {"id", "separators"} THEN
    IF {r.separators[j] : j \in DOMAIN r.separators} = SeparatorCodes THEN "ok" ELSE "the characters counted as separators are not those that separate"
  ELSE LET ch == Chunks(r.cs) IN
  IF Len(ch) # Len(r.parts) \/ \E j \in DOMAIN ch : Piece(r.cs, ch[j]) # r.parts[j][1] THEN "bad record"
  ELSE IF r.words # FlattenSeq([j \in DOMAIN ch |->
                       [m \in DOMAIN r.parts[j][2] |-> Shift(r.parts[j][2][m], ch[j][1] - 1)]])
       THEN "words are not those of the stretches taken alone"
  ELSE "ok"
=============================================================================
