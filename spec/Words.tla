-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* The words of a text and the class of a word: morphology and lexicon     *)
(* together.                                                               *)
(***************************************************************************)
EXTENDS Morphology, SelmahoData, Text

RECURSIVE Join(_, _)
Join(w, k) == IF k > Len(w) THEN "" ELSE w[k] \o Join(w, k + 1)
\* the canonical spelling of a word, as a string
Canonical(w) == Join(Letters(w), 1)

\* spelling -> <<class, experimental>>
LexEntries == UNION {{<<w, Lexicon[k][1], 0>> : w \in Lexicon[k][2]} \cup
                     {<<w, Lexicon[k][1], 1>> : w \in Lexicon[k][3]} : k \in DOMAIN Lexicon}
LexWords == {x[1] : x \in LexEntries}
LexOf    == [w \in LexWords |-> LET x == CHOOSE x \in LexEntries : x[1] = w
                                IN <<x[2], IF x[2] \in FundamentallyExperimental THEN 1 ELSE x[3]>>]

AllY(w) == w # <<>> /\ \A k \in DOMAIN w : w[k] = "y"

\* the class of a word (given without trailing commas) and whether it is experimental
ClassOf(w, ep) ==
  LET s == Canonical(w) IN
  IF s \in LexWords THEN LexOf[s]
  ELSE IF AllY(NoCommas(w)) THEN <<"Y", 0>>
  ELSE LET c == FormClass(MCtx(w, ep))
       IN <<c, IF c \in FundamentallyExperimental THEN 1 ELSE 0>>

\* the words of each stretch of a text
TextWords(cs, ep) ==
  LET chunks == Chunks(cs) IN
  [k \in DOMAIN chunks |->
     LET tr == Trimmed(cs, chunks[k]) IN
     IF tr[1] = tr[2] THEN <<>>
     ELSE LET ws == ChunkWords(Piece(cs, tr), ep + k)
          IN [j \in DOMAIN ws |-> Shift(ws[j], tr[1] - 1)]]
AllWords(cs, ep) == FlattenSeq(TextWords(cs, ep))
=============================================================================
