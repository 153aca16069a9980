----------------------------- MODULE MCGrammar -----------------------------
(***************************************************************************)
(* The grammar and the morphology are well-founded: every production that  *)
(* is mentioned exists and is used, none can call itself without having    *)
(* consumed something (so parsing terminates), and no repetition is of     *)
(* something that can succeed on nothing without the rule noticing.        *)
(***************************************************************************)
EXTENDS Parser
M == INSTANCE Morphology

RECURSIVE Mentions(_), LeftCalls(_), LeftSeq(_, _)
Mentions(e) ==
  CASE e[1] = "n" -> {e[2]}
    [] e[1] \in {"s", "alt"} -> UNION {Mentions(e[2][k]) : k \in DOMAIN e[2]}
    [] e[1] \in {"o", "!", "cut", "mc"} -> Mentions(e[2])
    [] e[1] \in {"m", "nd"} -> Mentions(e[3])
    [] e[1] = "till" -> Mentions(e[2]) \cup Mentions(e[3])
    [] e[1] = "t" -> {"Indicators"}
    [] OTHER -> {}
Nullable(e) == Eps \in FirstOf(First, e)
\* the productions e can call before anything is consumed
LeftCalls(e) ==
  CASE e[1] = "n" -> {e[2]}
    [] e[1] = "s" -> LeftSeq(e[2], 1)
    [] e[1] = "alt" -> UNION {LeftCalls(e[2][k]) : k \in DOMAIN e[2]}
    [] e[1] \in {"o", "!", "cut", "mc"} -> LeftCalls(e[2])
    [] e[1] \in {"m", "nd"} -> LeftCalls(e[3])
    [] e[1] = "till" -> LeftCalls(e[2]) \cup LeftCalls(e[3])
    [] OTHER -> {}
LeftSeq(es, k) == IF k > Len(es) THEN {}
                  ELSE LeftCalls(es[k]) \cup (IF Nullable(es[k]) THEN LeftSeq(es, k + 1) ELSE {})

Rules == DOMAIN GRules
LC == [r \in Rules |-> LeftCalls(GRules[r])]
\* everything reachable from set s by function f
RECURSIVE Reach(_, _)
Reach(f, s) == LET n == s \cup UNION {f[r] : r \in s} IN IF n = s THEN s ELSE Reach(f, n)

AllDefined    == \A r \in Rules : Mentions(GRules[r]) \subseteq Rules
AllUsed       == Reach([r \in Rules |-> Mentions(GRules[r])], {"Text"}) = Rules
NoLeftRecursion == \A r \in Rules : r \notin Reach(LC, LC[r])
\* every class of word can be used
RECURSIVE Uses(_)
Uses(e) ==
  CASE e[1] \in {"t", "ti", "tr"} -> {e[2]}
    [] e[1] = "bu" -> {"Bu"}
    [] e[1] \in {"s", "alt"} -> UNION {Uses(e[2][k]) : k \in DOMAIN e[2]}
    [] e[1] \in {"o", "!", "cut", "mc"} -> Uses(e[2])
    [] e[1] \in {"m", "nd"} -> Uses(e[3])
    [] e[1] = "till" -> Uses(e[2]) \cup Uses(e[3])
    [] OTHER -> {}
UsedClassesExist == UNION {Uses(GRules[r]) : r \in Rules} \subseteq DOMAIN SelmahoRepr
NamesDistinct == \A a, b \in DOMAIN SelmahoRepr : a # b => SelmahoRepr[a] # SelmahoRepr[b]

\* ---------------------------------------------------------------- morphology
RECURSIVE MNull(_, _), MLeft(_, _), MLeftSeq(_, _, _), MMentions(_)
MNull(F, e) ==
  CASE e[1] = "n" -> F[e[2]]
    [] e[1] = "ch" -> FALSE
    [] e[1] = "s" -> \A k \in DOMAIN e[2] : MNull(F, e[2][k])
    [] e[1] \in {"alt", "long"} -> \E k \in DOMAIN e[2] : MNull(F, e[2][k])
    [] OTHER -> TRUE
RECURSIVE NullFix(_)
NullFix(F) == LET G == [r \in DOMAIN M!MRules |-> MNull(F, M!MRules[r])] IN IF F = G THEN F ELSE NullFix(G)
MNullable == NullFix([r \in DOMAIN M!MRules |-> FALSE])
MMentions(e) ==
  CASE e[1] = "n" -> {e[2]}
    [] e[1] \in {"s", "alt", "long"} -> UNION {MMentions(e[2][k]) : k \in DOMAIN e[2]}
    [] e[1] \in {"r", "no", "pk"} -> MMentions(e[2])
    [] OTHER -> {}
MLeft(F, e) ==
  CASE e[1] = "n" -> {e[2]}
    [] e[1] = "s" -> MLeftSeq(F, e[2], 1)
    [] e[1] \in {"alt", "long"} -> UNION {MLeft(F, e[2][k]) : k \in DOMAIN e[2]}
    [] e[1] \in {"r", "no", "pk"} -> MLeft(F, e[2])
    [] OTHER -> {}
MLeftSeq(F, es, k) == IF k > Len(es) THEN {}
                      ELSE MLeft(F, es[k]) \cup (IF MNull(F, es[k]) THEN MLeftSeq(F, es, k + 1) ELSE {})
MDefined == \A r \in DOMAIN M!MRules : MMentions(M!MRules[r]) \subseteq DOMAIN M!MRules
MLC == [r \in DOMAIN M!MRules |-> MLeft(MNullable, M!MRules[r])]
MNoLeftRecursion == \A r \in DOMAIN M!MRules : r \notin Reach(MLC, MLC[r])
RECURSIVE RepOk(_, _)
RepOk(F, e) ==
  CASE e[1] \in {"s", "alt", "long"} -> \A k \in DOMAIN e[2] : RepOk(F, e[2][k])
    [] e[1] = "r" -> ~MNull(F, e[2]) /\ RepOk(F, e[2])
    [] e[1] \in {"no", "pk"} -> RepOk(F, e[2])
    [] OTHER -> TRUE
MNoEmptyRepetition == \A r \in DOMAIN M!MRules : RepOk(MNullable, M!MRules[r])

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
