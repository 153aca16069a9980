----------------------------- MODULE FastParser -----------------------------
(***************************************************************************)
(* The parser of Parser.tla, evaluated faster: the grammar is compiled     *)
(* once (productions and selmaho numbered, every expression annotated with *)
(* the words it can start with) and alternatives that cannot start with    *)
(* the next word are skipped.  MCFast checks FParse = Parse.               *)
(***************************************************************************)
EXTENDS Parser

Sels  == SetToSeq(DOMAIN SelmahoRepr)
SelId == [s \in DOMAIN SelmahoRepr |-> CHOOSE k \in 1..Len(Sels) : Sels[k] = s]
NSel  == Len(Sels)
EndId == NSel + 1
Names == TLCEval([k \in 1..NSel |-> SelmahoRepr[Sels[k]]])
BU    == SelId["Bu"]
ZEI   == SelId["Zei"]
BAHE  == SelId["Bahe"]
FOnes == TLCEval([k \in 1..EndId |-> TRUE])

\* which words (by number, EndId = end of text) can start e; TRUE for all if e can match nothing
FirstMap(e) == LET f == FirstOf(First, e) IN
  IF Eps \in f THEN FOnes ELSE TLCEval([k \in 1..EndId |-> k <= NSel /\ Sels[IF k <= NSel THEN k ELSE 1] \in f])

RECURSIVE C(_)
\* 1 rule, 2 word, 3 seq, 4 opt, 5 node, 6 alt, 7 many, 8 not, 9 must consume, 10 cut, 11 word w/o
\* indicators, 12 bare word, 13 bu, 14 any, 15 anybut, 16 as, 17 till;  component 2: start map
C(e) ==
  CASE e[1] = "n"   -> <<1, FirstMap(e), RuleId[e[2]]>>
    [] e[1] = "t"   -> <<2, FirstMap(e), SelId[e[2]]>>
    [] e[1] = "s" /\ e[2] # <<>> -> <<3, FirstMap(e), TLCEval([k \in DOMAIN e[2] |-> C(e[2][k])])>>
    [] e[1] = "s" /\ e[2] = <<>> -> <<8, [k \in 1..EndId |-> FALSE], <<13, FOnes>>>>   \* matches nothing, always
    [] e[1] = "o"   -> <<4, FirstMap(e[2]), C(e[2])>>
    [] e[1] = "nd"  -> <<5, FirstMap(e), e[2], C(e[3])>>
    [] e[1] = "alt" -> <<6, FirstMap(e), TLCEval([k \in DOMAIN e[2] |-> C(e[2][k])])>>
    [] e[1] = "m"   -> <<7, FirstMap(e[3]), C(e[3]), e[2]>>
    [] e[1] = "!"   -> <<8, FirstMap(e[2]), C(e[2])>>
    [] e[1] = "mc"  -> <<9, FirstMap(e), C(e[2])>>
    [] e[1] = "cut" -> <<10, FirstMap(e), C(e[2])>>
    [] e[1] = "ti"  -> <<11, FirstMap(e), SelId[e[2]]>>
    [] e[1] = "tr"  -> <<12, FirstMap(e), SelId[e[2]]>>
    [] e[1] = "bu"  -> <<13, FOnes>>
    [] e[1] = "any" -> <<14, FOnes>>
    [] e[1] = "anybut" -> <<15, FOnes, {SelId[s] : s \in e[2]}>>
    [] e[1] = "as"  -> <<16, FOnes, e[2], {SelId[s] : s \in e[3]}>>
    [] e[1] = "till" -> <<17, FOnes, C(e[2]), C(e[3])>>
CRules == TLCEval([k \in 1..Len(RuleSeq) |-> C(GRules[RuleSeq[k]])])
CText  == RuleId["Text"]
CInd   == RuleId["Indicators"]
CTextCall == C(N("Text"))
CIndCall  == C(N("Indicators"))

\* A bu-lerfu or a zei-compound can start with any word whatsoever, but only where (after ba'e words)
\* the word is followed by bu, zei or ba'e: there, nothing is skipped.
MagicAt(tk, i) == \E j \in i..(Len(tk) - 1) : /\ tk[j + 1] \in {"Bu", "Zei", "Bahe"}
                                             /\ \A k \in i..(j - 1) : tk[k] = "Bahe"
\* cx = <<tokens (numbers, EndId appended), epoch, for each position whether it is MagicAt>>
RECURSIVE FZei(_, _), FBahe(_, _), FFree(_, _)
FZei(tk, i)  == LET j == FBahe(tk, i) IN tk[j] = ZEI /\ FFree(tk, j + 1)
FFree(tk, i) == tk[i] # BU /\ ~FZei(tk, i)
FBahe(tk, i) == IF tk[i] = BAHE /\ FFree(tk, i + 1) THEN FBahe(tk, i + 1) ELSE i

\* an expression that cannot start here fails without being looked at
Starts(cx, e, i) == e[2][cx[1][i]] \/ cx[3][i]

\* Ev[<<cx, e, i>>]: the outcome of e at i.  (One recursive function: TLC evaluates the body of a function
\* in a fresh context, that of a recursive operator in one which grows with the depth of the recursion.)
\* Tags above 20 are the loops: 23 rest of a sequence, 26 rest of a choice, 27 repetition, 37 till.
Ev[x \in Any] ==
  LET cx == x[1]
      e  == x[2]
      i  == x[3]
      t  == e[1] IN
  CASE t = 2 \/ t = 11 ->
         LET tk == cx[1]
             j  == IF tk[i] = BAHE THEN FBahe(tk, i) ELSE i IN
         IF tk[j] # e[3] THEN <<0, j, Sels[e[3]]>>
         ELSE LET q == IF t = 2 /\ Starts(cx, CRules[CInd], j + 1)
                       THEN Ev[<<cx, CIndCall, j + 1>>] ELSE <<0>>
                  r == IF q[1] = 0 THEN <<j + 1, <<>>>> ELSE q IN
              IF r[1] < 0 THEN r
              ELSE IF ~FFree(tk, r[1]) THEN <<0, r[1]>>
              ELSE <<r[1], << <<Sels[e[3]], 0, [k \in 1..(j - i) |-> <<"BAhE", i + k - 1, <<>>>>]
                                     \o << <<Names[e[3]], j, <<>>>> >> \o r[2]>> >> >>
    [] t = 1  -> IF Starts(cx, e, i) THEN Memo(e[3] * MaxLen + i, cx[2], Ev[<<cx, CRules[e[3]], i>>])
                 ELSE <<0, i>>
    [] t = 3  -> LET r == Ev[<<cx, e[3][1], i>>] IN
                 IF r[1] > 0 /\ Len(e[3]) > 1 THEN Ev[<<cx, <<23, e[3], 2, r[2]>>, r[1]>>] ELSE r
    [] t = 23 -> LET r == Ev[<<cx, e[2][e[3]], i>>] IN
                 IF r[1] > 0
                 THEN LET ks == IF r[2] = <<>> THEN e[4] ELSE e[4] \o r[2] IN
                      IF e[3] < Len(e[2]) THEN Ev[<<cx, <<23, e[2], e[3] + 1, ks>>, r[1]>>] ELSE <<r[1], ks>>
                 ELSE r
    [] t = 4  -> IF ~Starts(cx, e, i) THEN <<i, <<>>>>
                 ELSE LET r == Ev[<<cx, e[3], i>>] IN IF r[1] = 0 THEN <<i, <<>>>> ELSE r
    [] t = 5  -> LET r == Ev[<<cx, e[4], i>>] IN
                 IF r[1] > 0 THEN <<r[1], << <<e[3], 0, r[2]>> >> >> ELSE r
    [] t = 6  -> Ev[<<cx, <<26, e[3], 1>>, i>>]
    [] t = 26 -> LET r == IF Starts(cx, e[2][e[3]], i) THEN Ev[<<cx, e[2][e[3]], i>>] ELSE <<0, i>> IN
                 IF r[1] = 0 /\ e[3] < Len(e[2]) THEN Ev[<<cx, <<26, e[2], e[3] + 1>>, i>>] ELSE r
    [] t = 7  -> IF ~Starts(cx, e, i) THEN IF e[4] = 0 THEN <<i, <<>>>> ELSE <<0, i>>
                 ELSE Ev[<<cx, <<27, e[2], e[3], e[4], <<>>>>, i>>]
    [] t = 27 -> LET r == IF Starts(cx, e, i) THEN Ev[<<cx, e[3], i>>] ELSE <<0, i>> IN
                 IF r[1] < 0 THEN r
                 ELSE IF r[1] = 0 THEN IF e[4] = 0 THEN <<i, e[5]>> ELSE r
                 ELSE IF r[1] = i THEN <<0, i>>
                 ELSE Ev[<<cx, <<27, e[2], e[3], 0, e[5] \o r[2]>>, r[1]>>]
    [] t = 8  -> IF ~Starts(cx, e, i) THEN <<i, <<>>>>
                 ELSE LET r == Ev[<<cx, e[3], i>>] IN
                 IF r[1] < 0 THEN r ELSE IF r[1] > 0 THEN <<0, i>> ELSE <<i, <<>>>>
    [] t = 9  -> LET r == Ev[<<cx, e[3], i>>] IN IF r[1] = i THEN <<0, i>> ELSE r
    [] t = 10 -> LET r == Ev[<<cx, e[3], i>>] IN 
                 IF r[1] = 0 THEN <<-1, r[2], IF e[3][1] = 2 /\ Len(r) = 3 THEN r[3] ELSE "">> ELSE r
    [] t = 12 -> IF cx[1][i] # e[3] THEN <<0, i>>
                 ELSE IF ~FFree(cx[1], i + 1) THEN <<0, i + 1>>
                 ELSE <<i + 1, << <<Names[e[3]], i, <<>>>> >> >>
    [] t = 13 -> IF cx[1][i] # BU THEN <<0, i>> ELSE <<i + 1, << <<"BU", i, <<>>>> >> >>
    [] t = 14 -> LET k == cx[1][i] IN
                 IF k = EndId THEN <<0, i>> ELSE <<i + 1, << <<Names[k], i, <<>>>> >> >>
    [] t = 15 -> LET k == cx[1][i] IN
                 IF k = EndId \/ k \in e[3] THEN <<0, i>> ELSE <<i + 1, << <<Names[k], i, <<>>>> >> >>
    [] t = 16 -> LET k == cx[1][i] IN
                 IF k = EndId \/ (e[4] # {} /\ k \notin e[4]) THEN <<0, i>>
                 ELSE <<i + 1, << <<e[3], i, <<>>>> >> >>
    [] t = 17 -> Ev[<<cx, <<37, e[3], e[4], <<>>>>, i>>]
    [] t = 37 -> LET r == Ev[<<cx, e[3], i>>] IN
                 IF r[1] < 0 THEN r
                 ELSE IF r[1] > 0 THEN <<r[1], e[4] \o r[2]>>
                 ELSE LET q == Ev[<<cx, e[2], i>>] IN
                      IF q[1] > 0 THEN Ev[<<cx, <<37, e[2], e[3], e[4] \o q[2]>>, q[1]>>] ELSE q

FParse(tk, ep) ==
  LET ids == TLCEval([k \in 1..(Len(tk) + 3) |-> IF k <= Len(tk) THEN SelId[tk[k]] ELSE EndId])
      mg  == TLCEval(IF Magic(tk) THEN [k \in 1..(Len(tk) + 3) |-> k < Len(tk) /\ MagicAt(tk, k)]
             ELSE [k \in 1..(Len(tk) + 3) |-> FALSE])
      r   == Ev[<< <<ids, ep, mg>>, CTextCall, 1>>] IN
  IF ~Assert(Len(tk) + 3 < MaxLen, "the text is too long") THEN [ok |-> FALSE, tree |-> <<>>, at |-> 0, missing |-> ""] ELSE
  IF r[1] = Len(tk) + 1 THEN [ok |-> TRUE, tree |-> r[2][1], at |-> 0, missing |-> ""]
  ELSE [ok |-> FALSE, tree |-> <<>>, at |-> IF r[1] > 0 THEN r[1] ELSE r[2], missing |-> IF r[1] < 0 THEN r[3] ELSE ""]
=============================================================================
