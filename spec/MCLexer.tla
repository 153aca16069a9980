------------------------------ MODULE MCLexer ------------------------------
(***************************************************************************)
(* The lexer machine, exhaustively: every text of up to MaxStretches stretches of a *)
(* small vocabulary.  The machine says how items come about; here are the  *)
(* properties of the resulting sequence of items in other words.           *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets, TLC

CONSTANTS MaxStretches, VocabSize

\* a stretch: its characters and its words
Vocab == << <<<<"m","i">>, <<<<1, 3, "Koha", 0>>>>>>,
            <<<<"g","y">>, <<<<1, 3, "By", 0>>>>>>,
            <<<<"z","o","i">>, <<<<1, 4, "Zoi", 0>>>>>>,
            <<<<"s","o","'","e","'","a","i">>, <<<<1, 8, "Sohehai", 1>>>>>>,
            <<<<"m","e","'","o","i">>, <<<<1, 6, "Mehoi", 1>>>>>>,
            <<<<",","g",",","y",",">>, <<<<1, 5, "By", 0>>>>>>,
            <<<<"f","a","'","o">>, <<<<1, 5, "Faho", 0>>>>>>,
            <<<<>>, <<>>>>,
            <<<<"m","i","z","o","i","g","y">>, <<<<1, 3, "Koha", 0>>, <<3, 6, "Zoi", 0>>, <<6, 8, "By", 0>>>>>>,
            <<<<"m","e","'","o","i","g","y">>, <<<<1, 6, "Mehoi", 1>>, <<6, 8, "By", 0>>>>>>,
            <<<<"z","o","i","m","i","g","y">>, <<<<1, 4, "Zoi", 0>>, <<4, 6, "Koha", 0>>, <<6, 8, "By", 0>>>>>>,
            <<<<",">>, <<>>>> >>

RECURSIVE Build(_, _, _)
\* the text of the stretches picked, one blank between two
Build(pick, k, t) ==
  IF k > Len(pick) THEN t
  ELSE LET v  == Vocab[pick[k]]
           cs == IF k = 1 THEN <<>> ELSE Append(t.cs, " ")
           o  == Len(cs) IN
       Build(pick, k + 1,
             [cs |-> cs \o v[1], chunks |-> Append(t.chunks, <<o + 1, o + 1 + Len(v[1])>>),
              words |-> Append(t.words, [j \in DOMAIN v[2] |-> <<v[2][j][1] + o, v[2][j][2] + o, v[2][j][3], v[2][j][4]>>])])
TextOf(pick) == Build(pick, 1, [cs |-> <<>>, chunks |-> <<>>, words |-> <<>>])

VARIABLES t, l, items, stop
vars == <<t, l, items, stop>>

Init == /\ t \in {TextOf(p) : p \in UNION {[1..n -> 1..VocabSize] : n \in 1..MaxStretches}}
        /\ l = LStart /\ items = <<>> /\ stop = 0
\* ask until there is nothing, and three times more
Step == /\ stop < 4
        /\ LET s == LStep(t, l) IN
           /\ l' = s[1] /\ t' = t
           /\ items' = IF s[2] = <<>> THEN items ELSE Append(items, s[2])
           /\ stop' = IF s[2] = <<>> THEN stop + 1 ELSE IF stop > 0 THEN 99 ELSE 0
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- C09
IsErr(x)  == x[1] \in Errors
Fused     == stop # 99                                    \* nothing after nothing
ErrorLast == \A k \in DOMAIN items : IsErr(items[k]) => k = Len(items) /\ (stop > 0 \/ l.mode = "done")
Sp(x)     == <<x[3], x[4]>>
Tokens    == SelectSeq(items, LAMBDA x : ~IsErr(x))
ErrorFits ==
  \A k \in DOMAIN items : IsErr(items[k]) =>
    LET x == items[k] IN
    CASE x[1] = "MissingSeparator" -> TRUE      \* the opener itself is not yielded: nothing but words before
      [] x[1] = "PauseEof" -> k > 1 /\ items[k - 1][1] \in PauseOpeners /\ Sp(items[k - 1]) = Sp(x)
      [] x[1] = "Unclosed" -> \E m \in 1..(k - 1) : items[m][1] \in QuoteOpeners /\ Sp(items[m]) = Sp(x)
\* every request changes the state or ends it: the machine terminates
Terminates == <>(stop = 4)

\* ---------------------------------------------------------------- C06-C08: the shape of the sequence
\* an automaton over the tokens: "n" normal, "d" delimiter due, "q" text or delimiter due, "c" closing delimiter
\* due, with how many parts to go
Shape(f, x) ==
  IF f[1] = "bad" THEN f
  ELSE CASE f[1] = "n" -> IF x[1] \in QuoteOpeners THEN <<"d", Parts(x[1])>>
                          ELSE IF x[1] \in PauseOpeners THEN <<"p", 0>>
                          ELSE IF x[1] \in Enders THEN <<"e", 0>>
                          ELSE IF x[1] = "ZoiDelimiter" THEN <<"bad", 0>> ELSE f
         [] f[1] = "d" -> IF x[1] = "ZoiDelimiter" THEN <<"q", f[2]>> ELSE <<"bad", 0>>
         [] f[1] = "p" -> IF x[1] = "AnyText" THEN <<"n", 0>> ELSE <<"bad", 0>>
         [] f[1] \in {"q", "c"} -> IF x[1] = "AnyText" /\ f[1] = "q" THEN <<"c", f[2]>>
                                   ELSE IF x[1] = "ZoiDelimiter" THEN (IF f[2] > 1 THEN <<"q", f[2] - 1>> ELSE <<"n", 0>>)
                                   ELSE <<"bad", 0>>
         [] OTHER -> <<"bad", 0>>
RECURSIVE Run(_, _, _)
Run(f, ts, k) == IF k > Len(ts) THEN f ELSE Run(Shape(f, ts[k]), ts, k + 1)
WellFormed == LET f == Run(<<"n", 0>>, Tokens, 1) IN
              /\ f[1] # "bad"
              /\ stop > 0 /\ Len(Tokens) = Len(items) => f[1] \in {"n", "e"}

InOrder == \A k \in 1..(Len(Tokens) - 1) : Tokens[k][4] <= Tokens[k + 1][3] /\ Tokens[k][3] <= Tokens[k][4]

\* ---------------------------------------------------------------- C07
SameLetters(a, b) == NoCommas(Piece(t.cs, a)) = NoCommas(Piece(t.cs, b))
\* the delimiters between an opener and the end of its quotation
Delims(k) == LET n == Parts(Tokens[k][1]) + 1
                 ds == SelectSeq([m \in 1..Len(Tokens) |-> m], LAMBDA m : m > k /\ Tokens[m][1] = "ZoiDelimiter")
             IN SubSeq(ds, 1, IF Len(ds) < n THEN Len(ds) ELSE n)
DelimsAgree ==
  \A k \in DOMAIN Tokens : Tokens[k][1] \in QuoteOpeners =>
    LET ds == Delims(k) IN
    \A a \in 1..(Len(ds) - 1) :
      LET o == Sp(Tokens[ds[a]])
          z == Sp(Tokens[ds[a + 1]])
          inner == {c \in DOMAIN t.chunks : t.chunks[c][1] > o[2] /\ t.chunks[c][2] <= z[1]} IN
      /\ SameLetters(o, z)
      /\ \A c \in inner : ~SameLetters(o, t.chunks[c])      \* it is the first that is spelled like this
      \* the text, if any, is everything between, but for the blanks next to the delimiters
      /\ ds[a + 1] = ds[a] + 2 =>
           LET x == Sp(Tokens[ds[a] + 1]) IN Len(NoCommas(Piece(t.cs, <<o[2], x[1]>>))) <= 1 /\ x[2] = z[1] - 1

\* ---------------------------------------------------------------- nothing is lost
AllWords == FlattenSeq(t.words)
Ended    == \E k \in DOMAIN items : IsErr(items[k]) \/ items[k][1] \in Enders
NothingLost ==
  stop > 0 /\ ~Ended =>
    \A m \in DOMAIN AllWords :
      \E k \in DOMAIN Tokens : Tokens[k][3] <= AllWords[m][1] /\ AllWords[m][2] <= Tokens[k][4]
\* a text without openers is its words, up to the end mark
RECURSIVE UpTo(_, _)
UpTo(ws, k) == IF k > Len(ws) THEN <<>>
               ELSE <<<<ws[k][3], ws[k][4], ws[k][1], ws[k][2]>>>> \o (IF ws[k][3] \in Enders THEN <<>> ELSE UpTo(ws, k + 1))
PlainText ==
  stop > 0 /\ (\A m \in DOMAIN AllWords : AllWords[m][3] \notin QuoteOpeners \cup PauseOpeners) => items = UpTo(AllWords, 1)
=============================================================================
