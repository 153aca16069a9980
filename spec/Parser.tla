------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The meaning of the grammar: which tree, if any, a token string has.     *)
(* tk is a sequence of selmaho names.                                      *)
(*                                                                         *)
(* An outcome is one of                                                    *)
(*    <<p, kids>>      p >= 1 : matched, next position p, trees built      *)
(*    <<0, loc>>              : soft failure (ordered choice goes on)      *)
(*    <<0, loc, sel>>         : so, because a word of class sel is missing *)
(*    <<-1, loc, sel>>        : hard failure (after a cut): the whole      *)
(*         parse is rejected at token position loc; sel: the class of word *)
(*         that had to follow there, or "" if it was there (but taken by a *)
(*         bu or zei) or if it could have followed anywhere                *)
(* A tree is <<name, i, kids>>: a leaf for token i (no kids) or, with      *)
(* i = 0, an inner node.                                                   *)
(*                                                                         *)
(* The only computational device is Memo, which equals its last argument:  *)
(* it remembers the outcome of a production at a position in a TLC         *)
(* register, so that evaluation takes time linear in the text.             *)
(***************************************************************************)
EXTENDS Grammar, SelmahoData, Integers, Sequences, SequencesExt, TLC, TLCExt

MaxLen   == 2500     \* texts are shorter than this
RuleSeq  == SetToSeq(DOMAIN GRules)
RuleId   == [r \in DOMAIN GRules |-> CHOOSE k \in 1..Len(RuleSeq) : RuleSeq[k] = r]

\* Memo(slot, epoch, val) = val
Memo(slot, epoch, val) ==
  LET m == TLCGetOrDefault(slot, <<-1>>)
  IN IF m[1] = epoch THEN m[2]
     ELSE LET v == val IN IF TLCSet(slot, <<epoch, v>>) THEN v ELSE v

\* ------------------------------------------------------------------------
\* FIRST sets, to prune productions that cannot start with the next word.  They assume a text
\* without bu and zei (only these make every word the possible start of a lerfu or a brivla).
RECURSIVE FirstOf(_, _), FirstSeq(_, _, _)
Eps == "<empty>"
FirstOf(F, e) ==
  CASE e[1] = "n"   -> F[e[2]]
    [] e[1] \in {"t", "ti"} -> {e[2], "Bahe"}
    [] e[1] = "tr"  -> {e[2]}
    [] e[1] = "bu"  -> {"Bu"}
    [] e[1] \in {"any", "as"} -> DOMAIN SelmahoRepr
    [] e[1] = "anybut" -> DOMAIN SelmahoRepr \ e[2]
    [] e[1] = "s"   -> FirstSeq(F, e[2], 1)
    [] e[1] = "o"   -> FirstOf(F, e[2]) \cup {Eps}
    [] e[1] = "m"   -> FirstOf(F, e[3]) \cup (IF e[2] = 0 THEN {Eps} ELSE {})
    [] e[1] = "!"   -> {Eps}
    [] e[1] = "cut" -> FirstOf(F, e[2])
    [] e[1] = "mc"  -> FirstOf(F, e[2]) \ {Eps}
    [] e[1] = "alt" -> UNION {FirstOf(F, e[2][k]) : k \in DOMAIN e[2]}
    [] e[1] = "nd"  -> FirstOf(F, e[3])
    [] e[1] = "till" -> FirstOf(F, e[2]) \cup FirstOf(F, e[3])
FirstSeq(F, es, k) ==
  IF k > Len(es) THEN {Eps}
  ELSE LET f == FirstOf(F, es[k]) IN
       IF Eps \in f THEN (f \ {Eps}) \cup FirstSeq(F, es, k + 1) ELSE f
RECURSIVE FirstFix(_)
FirstFix(F) == LET G == [r \in DOMAIN GRules |-> IF r \in {"BuInner", "ZeiClause"} THEN {} ELSE FirstOf(F, GRules[r])]
               IN IF G = F THEN F ELSE FirstFix(G)
First == FirstFix([r \in DOMAIN GRules |-> {}])
CanStart == [k \in 1..Len(RuleSeq) |-> [t \in DOMAIN SelmahoRepr |-> t \in First[RuleSeq[k]] \/ Eps \in First[RuleSeq[k]]]]
CanBeEmpty == [k \in 1..Len(RuleSeq) |-> Eps \in First[RuleSeq[k]]]
Magic(tk) == \E i \in 1..Len(tk) : tk[i] \in {"Bu", "Zei"}

Ok(r)   == r[1] > 0
Soft(r) == r[1] = 0
Hard(r) == r[1] < 0

Leaf(nm, i)    == <<nm, i, <<>>>>
Node(nm, kids) == <<nm, 0, kids>>

\* ------------------------------------------------------------------------
\* words: the magic of bu and zei, and ba'e in front of a word
At(tk, i) == IF i <= Len(tk) THEN tk[i] ELSE "<end>"

RECURSIVE ZeiAt(_, _), BaheEnd(_, _), FreeAt(_, _)
\* is there, at i, a (possibly emphasised) zei that is itself not swallowed by a bu or zei
ZeiAt(tk, i)  == LET j == BaheEnd(tk, i) IN At(tk, j) = "Zei" /\ FreeAt(tk, j + 1)
\* a word ending just before i is not part of a bu-lerfu or a zei-compound
FreeAt(tk, i) == At(tk, i) # "Bu" /\ ~ZeiAt(tk, i)
\* the first position after the ba'e words starting at i
BaheEnd(tk, i) == IF At(tk, i) = "Bahe" /\ FreeAt(tk, i + 1) THEN BaheEnd(tk, i + 1) ELSE i

\* ------------------------------------------------------------------------
RECURSIVE P(_, _, _, _), Seq_(_, _, _, _, _, _), Alt_(_, _, _, _, _), Rep(_, _, _, _, _, _),
          TillRep(_, _, _, _, _, _)

Word(tk, ep, sel, i, ind) ==
  LET j == BaheEnd(tk, i) IN
  IF At(tk, j) # sel THEN <<0, j, sel>>
  ELSE LET r == IF ind THEN P(tk, ep, O(N("Indicators")), j + 1) ELSE <<j + 1, <<>>>> IN
       IF ~Ok(r) THEN r
       ELSE IF ~FreeAt(tk, r[1]) THEN <<0, r[1]>>
       ELSE <<r[1], << Node(sel, [k \in 1..(j - i) |-> Leaf("BAhE", i + k - 1)]
                                 \o <<Leaf(SelmahoRepr[sel], j)>> \o r[2]) >> >>

P(tk, ep, e, i) ==
  CASE e[1] = "n"   -> Memo(RuleId[e[2]] * MaxLen + i, ep, P(tk, ep, GRules[e[2]], i))
    [] e[1] = "t"   -> Word(tk, ep, e[2], i, TRUE)
    [] e[1] = "s"   -> Seq_(tk, ep, e[2], 1, i, <<>>)
    [] e[1] = "o"   -> LET r == P(tk, ep, e[2], i) IN IF Soft(r) THEN <<i, <<>>>> ELSE r
    [] e[1] = "nd"  -> LET r == P(tk, ep, e[3], i) IN
                       IF Ok(r) THEN <<r[1], <<Node(e[2], r[2])>>>> ELSE r
    [] e[1] = "alt" -> Alt_(tk, ep, e[2], 1, i)
    [] e[1] = "m"   -> Rep(tk, ep, e[3], i, <<>>, e[2])
    [] e[1] = "!"   -> LET r == P(tk, ep, e[2], i) IN
                       IF Hard(r) THEN r ELSE IF Ok(r) THEN <<0, i>> ELSE <<i, <<>>>>
    [] e[1] = "mc"  -> LET r == P(tk, ep, e[2], i) IN IF Ok(r) /\ r[1] = i THEN <<0, i>> ELSE r
    [] e[1] = "cut" -> LET r == P(tk, ep, e[2], i) IN
                       IF Soft(r) THEN <<-1, r[2], IF e[2][1] = "t" /\ Len(r) = 3 THEN r[3] ELSE "">> ELSE r
    [] e[1] = "ti"  -> Word(tk, ep, e[2], i, FALSE)
    [] e[1] = "tr"  -> IF At(tk, i) # e[2] THEN <<0, i>>
                       ELSE IF ~FreeAt(tk, i + 1) THEN <<0, i + 1>>
                       ELSE <<i + 1, <<Leaf(SelmahoRepr[e[2]], i)>>>>
    [] e[1] = "bu"  -> IF At(tk, i) # "Bu" THEN <<0, i>> ELSE <<i + 1, <<Leaf("BU", i)>>>>
    [] e[1] = "any" -> IF i > Len(tk) THEN <<0, i>> ELSE <<i + 1, <<Leaf(SelmahoRepr[tk[i]], i)>>>>
    [] e[1] = "anybut" -> IF i > Len(tk) \/ At(tk, i) \in e[2] THEN <<0, i>>
                          ELSE <<i + 1, <<Leaf(SelmahoRepr[tk[i]], i)>>>>
    [] e[1] = "as"  -> IF i > Len(tk) \/ (e[3] # {} /\ At(tk, i) \notin e[3]) THEN <<0, i>>
                       ELSE <<i + 1, <<Leaf(e[2], i)>>>>
    [] e[1] = "till" -> LET r == TillRep(tk, ep, e[2], e[3], i, <<>>) IN r

Seq_(tk, ep, es, k, i, kids) ==
  IF k > Len(es) THEN <<i, kids>>
  ELSE LET r == P(tk, ep, es[k], i) IN
       IF Ok(r) THEN Seq_(tk, ep, es, k + 1, r[1], kids \o r[2]) ELSE r

Alt_(tk, ep, es, k, i) ==
  LET r == P(tk, ep, es[k], i) IN
  IF Soft(r) /\ k < Len(es) THEN Alt_(tk, ep, es, k + 1, i) ELSE r

\* at least min, greedily; an iteration that matches nothing is a failure
Rep(tk, ep, e, i, kids, min) ==
  LET r == P(tk, ep, e, i) IN
  IF Hard(r) THEN r
  ELSE IF Soft(r) THEN IF min = 0 THEN <<i, kids>> ELSE r
  ELSE IF r[1] = i THEN <<0, i>>
  ELSE Rep(tk, ep, e, r[1], kids \o r[2], 0)

TillRep(tk, ep, f, g, i, kids) ==
  LET r == P(tk, ep, g, i) IN
  IF Hard(r) THEN r
  ELSE IF Ok(r) THEN <<r[1], kids \o r[2]>>
  ELSE LET q == P(tk, ep, f, i) IN
       IF Ok(q) THEN TillRep(tk, ep, f, g, q[1], kids \o q[2]) ELSE q

\* ------------------------------------------------------------------------
\* the verdict on a token string: accepted with a tree, or rejected at a token
Parse(tk, ep) ==
  LET r == P(tk, ep, N("Text"), 1) IN
  IF Ok(r) /\ r[1] = Len(tk) + 1 THEN [ok |-> TRUE, tree |-> r[2][1], at |-> 0, missing |-> ""]
  ELSE [ok |-> FALSE, tree |-> <<>>, at |-> IF Ok(r) THEN r[1] ELSE r[2], missing |-> IF Hard(r) THEN r[3] ELSE ""]

\* a tree in prefix form: <<k, name>> leaf for token k; <<0, name>> ... <<-1, "">> node
RECURSIVE Flatten(_)
Flatten(t) == IF t[2] > 0 THEN << <<t[2], t[1]>> >>
              ELSE << <<0, t[1]>> >> \o FlattenSeq([k \in 1..Len(t[3]) |-> Flatten(t[3][k])])
                   \o << <<-1, "">> >>
=============================================================================
