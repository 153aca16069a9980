------------------------------- MODULE Val04 -------------------------------
\* C04: record [a, wa, b, wb]: two spellings of a text and their words <<s, e, class, experimental>>
EXTENDS Judge, Text
Spelt(cs, ws) == [j \in DOMAIN ws |-> Letters(Piece(cs, ws[j]))]
Classes(ws)   == [j \in DOMAIN ws |-> <<ws[j][3], ws[j][4]>>]
V(r, k) ==
  IF Letters(r.a) # Letters(r.b) THEN "bad record"
  ELSE IF \E j \in DOMAIN r.wa : ~InText(r.a, r.wa[j]) THEN "a word is not a piece of the text"
  ELSE IF \E j \in DOMAIN r.wb : ~InText(r.b, r.wb[j]) THEN "a word of the respelling is not a piece of it"
  ELSE IF Spelt(r.a, r.wa) # Spelt(r.b, r.wb) THEN "the respelling has other words"
  ELSE IF Classes(r.wa) # Classes(r.wb) THEN "the respelling has other classes"
  ELSE "ok"
=============================================================================
