------------------------------- MODULE Val01 -------------------------------
\* C01: record [cs, words, after]: a text and the spans yielded for it
EXTENDS Judge, Text
V(r, k) ==
  IF ~(\A j \in DOMAIN r.words : InText(r.cs, r.words[j])) THEN "a word is empty, outside the text or cuts a character"
  ELSE IF ~Ordered(r.words) THEN "words out of order or overlapping"
  ELSE IF ~Faithful(r.cs, r.words) THEN "a letter is in no word, or a separator is in a word"
  ELSE IF r.after # 0 THEN "words after the end"
  ELSE "ok"
=============================================================================
