------------------------------ MODULE PegExpr ------------------------------
(***************************************************************************)
(* A semantics of ordered-choice (PEG) recognisers with tree building,     *)
(* prioritised failure ("cut") and lookahead, over a finite token string.  *)
(*                                                                         *)
(* An expression is a tagged tuple; an outcome is one of                   *)
(*    <<p, kids>>   p >= 1 : matched, next position p, trees built         *)
(*    <<0>>                : soft failure (ordered choice goes on)         *)
(*    <<-1, loc, why>>     : hard failure (after a cut): the whole parse   *)
(*                           is rejected at token position loc             *)
(*                                                                         *)
(* Trees:  leaf  <<name, i>>   (token i)      node  <<name, <<trees>>>>    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, TLCExt

\* --- expression constructors ---------------------------------------------
N(name)      == <<"n", name>>            \* nonterminal
T(sel)       == <<"t", sel>>             \* word: ba'e* word indicators? !bu !zei
TI(sel)      == <<"ti", sel>>            \* word without indicators
TR(sel)      == <<"tr", sel>>            \* bare word !bu !zei
BuTok        == <<"bu">>                 \* the word bu, no lookahead at all
AnyTok       == <<"any">>                \* any single token, kept as is
As(nm, sels) == <<"as", nm, sels>>       \* one token whose class is in sels (all if empty), renamed
AnyBut(sels) == <<"anybut", sels>>       \* any single token except these classes
S(es)        == <<"s", es>>              \* sequence
O(e)         == <<"o", e>>               \* optional
M0(e)        == <<"m", 0, e>>            \* zero or more, greedy
M1(e)        == <<"m", 1, e>>            \* one or more, greedy
Not(e)       == <<"!", e>>               \* negative lookahead
Cut(e)       == <<"cut", e>>             \* commit
MC(e)        == <<"mc", e>>              \* must consume something
Alt(es)      == <<"alt", es>>            \* ordered choice
Nd(nm, e)    == <<"nd", nm, e>>          \* build a node
Till(f, g)   == <<"till", f, g>>         \* (!g f)* g, committed

Str(nm, es)  == Nd(nm, S(es))            \* a struct-like node
Enum(nm, vs) == Alt([k \in 1..Len(vs) |-> Nd(nm \o "::" \o vs[k][1], S(vs[k][2]))])
Sep(item, by) == Nd("Separated", S(<<item, M0(S(<<by, item>>))>>))
=============================================================================
