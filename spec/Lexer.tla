------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer as a machine on top of the decomposer.  t.cs is the text; a   *)
(* word of t.words is <<s, e, class, experimental>>.                       *)
(*                                                                         *)
(* State: d, that of the decomposer, and mode, one of                      *)
(*   "normal"   words are tokens                                           *)
(*   "quote"    a delimited quotation is open (and nothing is owed)        *)
(*   "pause"    a pause-delimited quotation is open                        *)
(*   "done"     nothing follows any more                                   *)
(* with owed, the tokens found but not yet yielded; and for quotations     *)
(* init, the opening word; delim, the delimiter of the current part;       *)
(* fresh, whether that delimiter has not been yielded; parts, how many     *)
(* parts are still to be closed.                                           *)
(*                                                                         *)
(* An item is <<class, experimental, s, e>>, or an error                   *)
(* <<kind, 0, s, e, s', e'>>, or <<>> for "no more".                       *)
(***************************************************************************)
EXTENDS Text, Decomposer

QuoteOpeners == {"Zoi", "Muhoi", "Sohehai"}
PauseOpeners == {"Mehoi", "Zohoi", "Dohoi"}
Enders       == {"Faho", "Fahoho"}
Parts(class) == IF class = "Sohehai" THEN 2 ELSE 1
Errors       == {"MissingSeparator", "Unclosed", "PauseEof"}

None   == <<0, 0>>
LStart == [d |-> DStart, mode |-> "normal", owed |-> <<>>,
           init |-> None, delim |-> None, fresh |-> FALSE, parts |-> 0]

Token(class, sp) == <<class, 0, sp[1], sp[2]>>
SpanOf(w) == <<w[1], w[2]>>

LNormal(t, l) ==
  LET r == DWord(t, l.d)
      w == r[2]
      s == [l EXCEPT !.d = r[1]] IN
  IF w = <<>> THEN <<s, <<>>>>
  ELSE LET item == <<w[3], w[4], w[1], w[2]>> IN
  CASE w[3] \in QuoteOpeners ->
         LET q == DWord(t, r[1]) IN
         IF q[2] = <<>> THEN <<[s EXCEPT !.d = q[1], !.mode = "done"],
                               <<"MissingSeparator", 0, w[1], w[2], 0, 0>>>>
         ELSE <<[s EXCEPT !.d = q[1], !.mode = "quote", !.init = SpanOf(w), !.delim = SpanOf(q[2]),
                          !.fresh = TRUE, !.parts = Parts(w[3])], item>>
    [] w[3] \in PauseOpeners -> <<[s EXCEPT !.mode = "pause", !.init = SpanOf(w)], item>>
    [] w[3] \in Enders -> <<[s EXCEPT !.mode = "done"], item>>
    [] OTHER -> <<s, item>>

RECURSIVE Scan(_, _, _, _)
\* from d on, the first raw stretch spelled like delim: <<its span or None, first, last quoted stretch, d'>>
Scan(t, d, delim, got) ==
  LET r == DRaw(t, d) IN
  IF r[2] = <<>> THEN <<None, got, r[1]>>
  ELSE IF NoCommas(Piece(t.cs, r[2])) = NoCommas(Piece(t.cs, delim)) THEN <<r[2], got, r[1]>>
  ELSE Scan(t, r[1], delim, Append(got, r[2]))

\* yield the first of tokens, owe the others
Yield(l, tokens) == <<[l EXCEPT !.owed = Tail(tokens)], Head(tokens)>>

LQuote(t, l) ==
  LET r     == Scan(t, l.d, l.delim, <<>>)
      end   == r[1]
      got   == r[2]
      open  == IF l.fresh THEN <<Token("ZoiDelimiter", l.delim)>> ELSE <<>>
      text  == IF got = <<>> THEN <<>> ELSE <<Token("AnyText", <<got[1][1], got[Len(got)][2]>>)>>
      s     == [l EXCEPT !.d = r[3]] IN
  IF end = None THEN <<[s EXCEPT !.mode = "done"],
                       <<"Unclosed", 0, l.init[1], l.init[2], l.delim[1], l.delim[2]>>>>
  ELSE Yield(IF l.parts > 1 THEN [s EXCEPT !.parts = l.parts - 1, !.delim = end, !.fresh = FALSE]
                            ELSE [s EXCEPT !.parts = 0, !.mode = "normal"],
             open \o text \o <<Token("ZoiDelimiter", end)>>)

LPause(t, l) ==
  LET r == DRaw(t, l.d)
      s == [l EXCEPT !.d = r[1]] IN
  IF r[2] = <<>> THEN <<[s EXCEPT !.mode = "done"], <<"PauseEof", 0, l.init[1], l.init[2], 0, 0>>>>
  ELSE <<[s EXCEPT !.mode = "normal"], Token("AnyText", r[2])>>

LStep(t, l) ==
  IF l.owed # <<>> THEN Yield(l, l.owed)
  ELSE CASE l.mode = "normal" -> LNormal(t, l)
         [] l.mode = "quote"  -> LQuote(t, l)
         [] l.mode = "pause"  -> LPause(t, l)
         [] l.mode = "done"   -> <<l, <<>>>>
=============================================================================
