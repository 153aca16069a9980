---------------------------- MODULE MCDecomposer ----------------------------
(***************************************************************************)
(* The decomposer machine, exhaustively: all histories of at most Depth    *)
(* requests on some texts with their words (TEXTS).  got records what the  *)
(* requests yielded.                                                       *)
(*                                                                         *)
(* The histories of full length are printed, with the answers the machine  *)
(* gives, to be replayed into the implementation.                          *)
(***************************************************************************)
EXTENDS Text, Decomposer, Json, IOUtils, TLC

CONSTANT Depth

Texts == ndJsonDeserialize(IOEnv.TEXTS)    \* [cs, words]
Things == TLCEval([i \in DOMAIN Texts |-> LET ch == Chunks(Texts[i].cs) IN
                     [cs |-> Texts[i].cs, chunks |-> ch, words |-> Grouped(Texts[i].words, ch)]])

VARIABLES i, d, hist, got
vars == <<i, d, hist, got>>

Init == i \in DOMAIN Texts /\ d = DStart /\ hist = <<>> /\ got = <<>>

Ask(op, r) == /\ d' = r[1]
              /\ hist' = Append(hist, <<op, r[2]>>)
              /\ got' = IF r[2] = <<>> THEN got ELSE Append(got, <<op, r[2]>>)
              /\ i' = i
Word == Ask("n", DWord(Things[i], d))
Raw  == Ask("q", DRaw(Things[i], d))
Moved == IF hist = <<>> THEN TRUE ELSE hist[Len(hist)][1] \in {"n", "q"}
Copy(op, left) == Moved /\ Ask(op, <<d, left>>)
Next == /\ Len(hist) < Depth
        /\ Word \/ Raw \/ Copy("c", DWords(Things[i], d)) \/ Copy("k", DRaws(Things[i], d))

Yields == SelectSeq(got, LAMBDA x : x[1] \in {"n", "q"})
InWord(w, k)  == w[1] <= k /\ k < w[2]
Words_ == FlattenSeq(Things[i].words)

\* what is yielded is in order and overlaps nothing
InOrder == \A k \in 1..(Len(Yields) - 1) : Yields[k][2][2] <= Yields[k + 1][2][1]
\* word requests yield words; raw requests yield a stretch or the end of one from a word on
Sound == \A k \in DOMAIN Yields :
           IF Yields[k][1] = "n" THEN \E m \in DOMAIN Words_ : Words_[m] = Yields[k][2]
           ELSE \E c \in DOMAIN Things[i].chunks :
                  /\ Yields[k][2][2] = Things[i].chunks[c][2]
                  /\ \/ Yields[k][2][1] = Things[i].chunks[c][1]
                     \/ \E m \in DOMAIN Things[i].words[c] : Things[i].words[c][m][1] = Yields[k][2][1]
\* nothing is lost: every word is yielded, or within something yielded raw, or still to come
DRest == FlattenSeq(<<d.pend>> \o [k \in 1..(Len(Things[i].chunks) + 1 - d.next) |-> Things[i].words[d.next + k - 1]])
NothingLost == \A m \in DOMAIN Words_ :
                 \/ \E k \in DOMAIN Yields : Yields[k][2][1] <= Words_[m][1] /\ Words_[m][2] <= Yields[k][2][2]
                 \/ \E k \in DOMAIN DRest : DRest[k] = Words_[m]
CountRight == DLeft(Things[i], d) = Len(DRest) /\ DWords(Things[i], d) = DRest
\* once a word request is answered by nothing, everything is
Fused == \A k \in DOMAIN hist : hist[k] = <<"n", <<>>>> => \A m \in k..Len(hist) : hist[m][2] = <<>>

Write == Len(hist) = Depth => PrintT("HISTORY " \o ToJson(<<i, hist>>))
=============================================================================
