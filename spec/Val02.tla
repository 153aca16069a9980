------------------------------- MODULE Val02 -------------------------------
\* C02: record [cs, words]: the words of every stretch are those of the morphology
EXTENDS Judge, Words
V(r, k) == IF AllWords(r.cs, k * 1000) = r.words THEN "ok"
           ELSE "words differ from the morphology: " \o ToString(AllWords(r.cs, k * 1000))
=============================================================================
