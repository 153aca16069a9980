----------------------------- MODULE Morphology -----------------------------
(***************************************************************************)
(* The morphology of Lojban: which stretches of a chunk of text (a piece   *)
(* between pauses) are cmavo, gismu, lujvo, fu'ivla or cmevla.             *)
(*                                                                         *)
(* The rules form an ordered-choice grammar over characters, with          *)
(* unbounded lookahead in both polarities.  Commas are transparent: every  *)
(* terminal skips the commas in front of it.  The apostrophe may be        *)
(* written h.  Capital vowels mark explicit stress.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt

\* --- expressions -----------------------------------------------------------
MN(name)  == <<"n", name>>
Ch(set)   == <<"ch", set>>         \* one character of set, after any commas
Eof       == <<"eof">>             \* the end of the chunk
MS(es)    == <<"s", es>>
MAlt(es)  == <<"alt", es>>
MLong(es) == <<"long", es>>        \* the longest of the alternatives that match
MO(e)     == <<"alt", <<e, <<"s", <<>>>>>>>>
MR(e)     == <<"r", e>>            \* zero or more, greedy
MR1(e)    == MS(<<e, MR(e)>>)
No(e)     == <<"no", e>>           \* not followed by e
Pk(e)     == <<"pk", e>>           \* followed by e

\* a consonant letter: never before ' or a glide, never doubled, and not before some others
Consonant(lo, up, self, nots) ==
  MS(<<Ch({lo, up}), No(MAlt(<<MN("h"), MN("glide"), MN(self)>> \o [k \in DOMAIN nots |-> MN(nots[k])]))>>)

MRules == [
  b |-> Consonant("b", "B", "b", <<"unvoiced">>),
  c |-> Consonant("c", "C", "c", <<"s", "x", "voiced">>),
  d |-> Consonant("d", "D", "d", <<"unvoiced">>),
  f |-> Consonant("f", "F", "f", <<"voiced">>),
  g |-> Consonant("g", "G", "g", <<"unvoiced">>),
  j |-> Consonant("j", "J", "j", <<"z", "unvoiced">>),
  k |-> Consonant("k", "K", "k", <<"x", "voiced">>),
  l |-> Consonant("l", "L", "l", <<>>),
  m |-> Consonant("m", "M", "m", <<"z">>),
  n |-> Consonant("n", "N", "n", <<"affricate">>),
  p |-> Consonant("p", "P", "p", <<"voiced">>),
  r |-> Consonant("r", "R", "r", <<>>),
  s |-> Consonant("s", "S", "s", <<"c", "voiced">>),
  t |-> Consonant("t", "T", "t", <<"voiced">>),
  v |-> Consonant("v", "V", "v", <<"unvoiced">>),
  x |-> Consonant("x", "X", "x", <<"c", "k", "voiced">>),
  z |-> Consonant("z", "Z", "z", <<"j", "unvoiced">>),
  liquid   |-> MAlt(<<MN("l"), MN("r")>>),
  syllabic |-> MAlt(<<MN("l"), MN("m"), MN("n"), MN("r")>>),
  voiced   |-> MAlt(<<MN("b"), MN("d"), MN("g"), MN("j"), MN("v"), MN("z")>>),
  unvoiced |-> MAlt(<<MN("c"), MN("f"), MN("k"), MN("p"), MN("s"), MN("t"), MN("x")>>),
  consonant |-> MAlt(<<MN("voiced"), MN("unvoiced"), MN("syllabic")>>),
  affricate |-> MAlt(<<MS(<<MN("t"), MAlt(<<MN("c"), MN("s")>>)>>),
                       MS(<<MN("d"), MAlt(<<MN("j"), MN("z")>>)>>)>>),
  sibilant |-> MAlt(<<MN("c"), MS(<<MN("s"), No(MN("x"))>>),
                      MS(<<MAlt(<<MN("j"), MN("z")>>), No(MN("n")), No(MN("liquid"))>>)>>),
  other    |-> MAlt(<<MN("p"), MN("k"), MN("f"), MN("x"), MN("b"), MN("g"), MN("v"), MN("m"),
                      MS(<<MN("n"), No(MN("liquid"))>>),
                      MS(<<MAlt(<<MN("t"), MN("d")>>), No(MN("l"))>>)>>),
  \* vowels: of a run of vowel letters, no proper nucleus may be followed by another nucleus
  a |-> Ch({"a", "A"}), e |-> Ch({"e", "E"}), i |-> Ch({"i", "I"}), o |-> Ch({"o", "O"}),
  u |-> Ch({"u", "U"}), y |-> Ch({"y", "Y"}),
  vowel |-> MS(<<Ch({"a","A","e","E","i","I","o","O","u","U","y","Y"}), No(MN("nucleus"))>>),
  diphthong |-> MS(<<MAlt(<<MS(<<MN("a"), MAlt(<<MN("i"), MN("u")>>)>>),
                            MS(<<MAlt(<<MN("e"), MN("o")>>), MN("i")>>)>>), No(MN("nucleus"))>>),
  nucleus |-> MAlt(<<MN("vowel"), MN("diphthong")>>),
  glide   |-> MS(<<Ch({"i", "I", "u", "U"}), Pk(MN("nucleus"))>>),
  h       |-> MS(<<Ch({"'", "h"}), Pk(MN("nucleus"))>>),
  digit   |-> MS(<<Ch({"0","1","2","3","4","5","6","7","8","9"}), No(MAlt(<<MN("h"), MN("nucleus")>>))>>),
  \* syllables
  initial |-> MS(<<MAlt(<<MN("affricate"), MS(<<MO(MN("sibilant")), MO(MN("other")), MO(MN("liquid"))>>)>>),
                   No(MN("consonant")), No(MN("glide"))>>),
  onset   |-> MAlt(<<MN("h"), MN("glide"), MN("initial")>>),
  initial_pair |-> MS(<<Pk(MN("initial")), MN("consonant"), MN("consonant"), No(MN("consonant"))>>),
  cluster |-> MS(<<MN("consonant"), MN("consonant")>>),
  coda    |-> MAlt(<<MS(<<No(MN("any_syllable")), MN("consonant"), Pk(MN("any_syllable"))>>),
                     MS(<<MO(MN("syllabic")), MO(MN("consonant")), Eof>>)>>),
  consonantal_syllable |-> MS(<<MN("consonant"), Pk(MN("syllabic")), MN("coda")>>),
  any_syllable |-> MAlt(<<MS(<<MN("onset"), MN("nucleus"), MO(MN("coda"))>>), MN("consonantal_syllable")>>),
  syllable |-> MS(<<MN("onset"), No(MN("y")), MN("nucleus"), MO(MN("coda"))>>),
  \* stress: explicit (a capital), or implicit on the last syllable but one
  stressed |-> MS(<<MN("onset"), Ch({"A", "E", "I", "O", "U"})>>),
  stress   |-> MS(<<MR(MN("consonant")), MO(MN("h")), MO(MN("y")), MN("syllable"), Eof>>),
  explicit_vowel |-> MS(<<Pk(MN("stressed")), MN("vowel")>>),
  stressed_vowel |-> MAlt(<<MN("explicit_vowel"), MS(<<MN("vowel"), Pk(MN("stress"))>>)>>),
  unstressed_vowel |-> MS(<<No(MN("stressed")), MN("vowel"), No(MN("stress"))>>),
  explicit_diphthong |-> MS(<<Pk(MN("stressed")), MN("diphthong")>>),
  stressed_diphthong |-> MAlt(<<MN("explicit_diphthong"), MS(<<MN("diphthong"), Pk(MN("stress"))>>)>>),
  unstressed_diphthong |-> MS(<<No(MN("stressed")), MN("diphthong"), No(MN("stress"))>>),
  unstressed_syllable |-> MAlt(<<MS(<<No(MN("stressed")), MN("syllable"), No(MN("stress"))>>),
                                 MN("consonantal_syllable")>>),
  explicit_syllable |-> MS(<<Pk(MN("stressed")), MN("syllable")>>),
  stressed_syllable |-> MAlt(<<MN("explicit_syllable"), MS(<<MN("syllable"), Pk(MN("stress"))>>)>>),
  final_syllable |-> MS(<<MN("onset"), No(MN("y")), No(MN("stressed")), MN("nucleus"), No(MN("cmevla")),
                          Pk(MN("post_word"))>>),
  final_syllable_minimal |-> MS(<<MN("onset"), No(MN("y")), No(MN("stressed")), MN("nucleus")>>),
  \* cmevla: ends in a consonant
  cmevla |-> MS(<<No(MN("h")),
                  MR(MAlt(<<MN("nucleus"), MN("glide"), MN("h"), MS(<<MN("consonant"), No(Eof)>>), MN("digit")>>)),
                  MN("consonant"), Eof>>),
  \* cmavo
  cmavo_form |-> MLong(<<
     MN("digit"), MR1(MN("y")),
     MS(<<No(MN("h")), No(MN("cluster")), MN("onset"), MR(MS(<<MN("nucleus"), MN("h")>>)),
          MAlt(<<MS(<<No(MN("stressed")), MN("nucleus")>>), MS(<<MN("nucleus"), No(MN("cluster"))>>)>>)>>)>>),
  cvcy_lujvo |-> MAlt(<<
     MS(<<MN("cvc_rafsi"), MN("y"), MO(MN("h")), MR(MN("initial_rafsi")), MN("brivla_core")>>),
     MS(<<MN("stressed_cvc_rafsi"), MN("y"), MN("short_final_rafsi")>>)>>),
  bare_cmavo |-> MS(<<No(MN("cvcy_lujvo")), MN("cmavo_form")>>),
  cmavo   |-> MS(<<No(MN("cmevla")), MN("bare_cmavo"), Pk(MN("post_word"))>>),
  post_word |-> MAlt(<<Eof, MS(<<No(MN("nucleus")), MN("lojban_word")>>)>>),
  lojban_word |-> MAlt(<<MN("cmevla"), MS(<<MN("bare_cmavo"), Pk(MN("post_word"))>>), MN("brivla")>>),
  \* gismu
  gismu |-> MS(<<MAlt(<<MS(<<MN("initial_pair"), MN("stressed_vowel")>>),
                        MS(<<MN("consonant"), MN("stressed_vowel"), MN("consonant")>>)>>),
                 Pk(MN("final_syllable")), MN("consonant"), MN("vowel"), Pk(MN("post_word"))>>),
  \* rafsi
  cvc_rafsi |-> MS(<<MN("consonant"), MN("unstressed_vowel"), MN("consonant")>>),
  ccv_rafsi |-> MS(<<MN("initial_pair"), MN("unstressed_vowel")>>),
  r_hyphen  |-> MAlt(<<MS(<<MN("r"), Pk(MN("consonant"))>>), MS(<<MN("n"), Pk(MN("r"))>>)>>),
  cvv_rafsi |-> MS(<<MN("consonant"),
                     MAlt(<<MS(<<MN("unstressed_vowel"), MN("h"), MN("unstressed_vowel")>>),
                            MN("unstressed_diphthong")>>), MN("r_hyphen")>>),
  y_less_rafsi |-> MS(<<No(MN("y_rafsi")), No(MN("stressed_y_rafsi")), No(MN("hy_rafsi")), No(MN("stressed_hy_rafsi")),
                        MAlt(<<MN("cvc_rafsi"), MN("ccv_rafsi"), MN("cvv_rafsi")>>), No(MN("h"))>>),
  cvv_final_rafsi |-> MS(<<MN("consonant"), MN("stressed_vowel"), MN("h"), Pk(MN("final_syllable")), MN("vowel"),
                           Pk(MN("post_word"))>>),
  stressed_cvc_rafsi |-> MS(<<MN("consonant"), MN("stressed_vowel"), MN("consonant")>>),
  stressed_ccv_rafsi |-> MS(<<MN("initial_pair"), MN("stressed_vowel")>>),
  stressed_cvv_rafsi |-> MS(<<MN("consonant"),
                              MAlt(<<MS(<<MN("unstressed_vowel"), MN("h"), MN("stressed_vowel")>>),
                                     MN("stressed_diphthong")>>), MO(MN("r_hyphen"))>>),
  stressed_y_less_rafsi |-> MAlt(<<MS(<<MN("stressed_cvc_rafsi"), No(MN("y"))>>), MN("stressed_ccv_rafsi"),
                                   MN("stressed_cvv_rafsi")>>),
  long_rafsi |-> MAlt(<<MS(<<MN("initial_pair"), MN("unstressed_vowel"), MN("consonant")>>),
                        MS(<<MN("consonant"), MN("unstressed_vowel"), MN("consonant"), MN("consonant")>>)>>),
  hy_rafsi |-> MS(<<MAlt(<<MS(<<MN("long_rafsi"), MN("vowel")>>), MN("ccv_rafsi"), MN("cvv_rafsi")>>),
                    MN("h"), MN("y"), MO(MN("h"))>>),
  stressed_hy_rafsi |-> MS(<<MAlt(<<MS(<<MN("long_rafsi"), MN("stressed_vowel")>>), MN("stressed_ccv_rafsi"),
                                    MN("stressed_cvv_rafsi")>>), MN("h"), MN("y")>>),
  y_rafsi |-> MS(<<MAlt(<<MN("long_rafsi"), MN("cvc_rafsi")>>), MN("y"), MO(MN("h"))>>),
  stressed_long_rafsi |-> MAlt(<<MS(<<MN("initial_pair"), MN("stressed_vowel"), MN("consonant")>>),
                        MS(<<MN("consonant"), MN("stressed_vowel"), MN("consonant"), MN("consonant")>>)>>),
  stressed_y_rafsi |-> MS(<<MAlt(<<MN("stressed_long_rafsi"), MN("stressed_cvc_rafsi")>>), MN("y")>>),
  short_final_rafsi |-> MS(<<Pk(MN("final_syllable")),
                             MAlt(<<MS(<<MN("consonant"), MN("diphthong")>>), MS(<<MN("initial_pair"), MN("vowel")>>)>>),
                             Pk(MN("post_word"))>>),
  rafsi_string |-> MS(<<MR(MN("y_less_rafsi")),
     MAlt(<<MN("gismu"), MN("cvv_final_rafsi"), MS(<<MN("stressed_y_less_rafsi"), MN("short_final_rafsi")>>),
            MN("y_rafsi"), MN("stressed_y_rafsi"),
            MS(<<MO(MN("stressed_y_less_rafsi")), MN("initial_pair"), MN("y")>>),
            MN("hy_rafsi"), MN("stressed_hy_rafsi")>>)>>),
  slinkuhi |-> MS(<<No(MN("rafsi_string")), MN("consonant"), MN("rafsi_string")>>),
  \* fu'ivla
  brivla_head |-> MS(<<No(MN("cmavo")), No(MN("slinkuhi")), No(MN("h")), Pk(MN("onset")),
                       MR(MN("unstressed_syllable"))>>),
  fuhivla_head |-> MS(<<No(MN("rafsi_string")), MN("brivla_head")>>),
  fuhivla |-> MS(<<MN("fuhivla_head"), MN("stressed_syllable"), MR(MN("consonantal_syllable")), MN("final_syllable")>>),
  brivla_rafsi |-> MS(<<Pk(MS(<<MN("syllable"), MR(MN("consonantal_syllable")), MN("syllable")>>)), MN("brivla_head"),
                        MN("h"), MN("y"), MO(MN("h"))>>),
  fuhivla_rafsi |-> MS(<<Pk(MN("unstressed_syllable")), MN("fuhivla_head"), No(MN("h")), MN("onset"), MN("y"), MO(MN("h"))>>),
  extended_rafsi |-> MAlt(<<MN("brivla_rafsi"), MN("fuhivla_rafsi")>>),
  stressed_brivla_rafsi |-> MS(<<Pk(MN("unstressed_syllable")), MN("brivla_head"), MN("stressed_syllable"), MN("h"), MN("y")>>),
  stressed_fuhivla_rafsi |-> MS(<<MN("fuhivla_head"), MN("stressed_syllable"), No(MN("h")), MN("onset"), MN("y")>>),
  stressed_extended_rafsi |-> MAlt(<<MN("stressed_brivla_rafsi"), MN("stressed_fuhivla_rafsi")>>),
  any_extended_rafsi |-> MAlt(<<MN("fuhivla"), MN("extended_rafsi"), MN("stressed_extended_rafsi")>>),
  \* lujvo
  initial_rafsi |-> MAlt(<<MN("extended_rafsi"), MN("y_rafsi"),
                           MS(<<No(MN("any_extended_rafsi")), MN("y_less_rafsi"), No(MN("any_extended_rafsi"))>>)>>),
  stressed_initial_rafsi |-> MAlt(<<MN("stressed_extended_rafsi"), MN("stressed_y_rafsi"), MN("stressed_y_less_rafsi")>>),
  brivla_core |-> MAlt(<<MN("fuhivla"), MN("gismu"), MN("cvv_final_rafsi"),
                         MS(<<MN("stressed_initial_rafsi"), MN("short_final_rafsi")>>)>>),
  lujvo  |-> MS(<<MR(MN("initial_rafsi")), MN("brivla_core")>>),
  brivla |-> MAlt(<<MN("gismu"), MN("fuhivla"), MN("lujvo")>>),
  \* brivla whose stress is explicit, so that their end does not depend on what follows
  explicit_gismu |-> MS(<<MAlt(<<MS(<<MN("initial_pair"), MN("explicit_vowel")>>),
                                 MS(<<MN("consonant"), MN("explicit_vowel"), MN("consonant")>>)>>),
                          Pk(MN("final_syllable")), MN("consonant"), MN("vowel")>>),
  explicit_fuhivla |-> MS(<<MN("fuhivla_head"), MN("explicit_syllable"), MR(MN("consonantal_syllable")),
                            MN("final_syllable_minimal")>>),
  explicit_cvv_final_rafsi |-> MS(<<MN("consonant"), MN("explicit_vowel"), MN("h"), Pk(MN("final_syllable")),
                                    MN("vowel"), Pk(MN("post_word"))>>),
  explicit_brivla_rafsi |-> MS(<<Pk(MN("unstressed_syllable")), MN("brivla_head"), MN("explicit_syllable"), MN("h"), MN("y")>>),
  explicit_fuhivla_rafsi |-> MS(<<MN("fuhivla_head"), MN("explicit_syllable"), No(MN("h")), MN("onset"), MN("y")>>),
  explicit_y_rafsi |-> MS(<<MAlt(<<MS(<<MN("initial_pair"), MN("explicit_vowel"), MN("consonant")>>),
                                   MS(<<MN("consonant"), MN("explicit_vowel"), MN("consonant"), MN("consonant")>>),
                                   MN("explicit_cvc_rafsi")>>), MN("y")>>),
  explicit_cvc_rafsi |-> MS(<<MN("consonant"), MN("explicit_vowel"), MN("consonant")>>),
  explicit_ccv_rafsi |-> MS(<<MN("initial_pair"), MN("explicit_vowel")>>),
  explicit_cvv_rafsi |-> MS(<<MN("consonant"),
                              MAlt(<<MS(<<MN("unstressed_vowel"), MN("h"), MN("explicit_vowel")>>),
                                     MN("explicit_diphthong")>>), MO(MN("r_hyphen"))>>),
  explicit_initial_rafsi |-> MAlt(<<MN("explicit_brivla_rafsi"), MN("explicit_fuhivla_rafsi"), MN("explicit_y_rafsi"),
                                    MS(<<MN("explicit_cvc_rafsi"), No(MN("y"))>>), MN("explicit_ccv_rafsi"),
                                    MN("explicit_cvv_rafsi")>>),
  explicit_brivla |-> MS(<<MR(MN("initial_rafsi")),
                           MAlt(<<MN("explicit_fuhivla"), MN("explicit_gismu"), MN("explicit_cvv_final_rafsi"),
                                  MS(<<MN("explicit_initial_rafsi"), MN("short_final_rafsi")>>)>>)>>)
]

\* --- meaning -------------------------------------------------------------
MRuleSeq == SetToSeq(DOMAIN MRules)
MRuleId  == [r \in DOMAIN MRules |-> CHOOSE k \in 1..Len(MRuleSeq) : MRuleSeq[k] = r]

RECURSIVE MC_(_)
MC_(e) == CASE e[1] = "n"    -> <<1, MRuleId[e[2]]>>
            [] e[1] = "ch"   -> <<2, e[2]>>
            [] e[1] = "s"    -> <<3, TLCEval([k \in DOMAIN e[2] |-> MC_(e[2][k])])>>
            [] e[1] = "alt"  -> <<4, TLCEval([k \in DOMAIN e[2] |-> MC_(e[2][k])])>>
            [] e[1] = "r"    -> <<5, MC_(e[2])>>
            [] e[1] = "no"   -> <<6, MC_(e[2])>>
            [] e[1] = "pk"   -> <<7, MC_(e[2])>>
            [] e[1] = "eof"  -> <<8>>
            [] e[1] = "long" -> <<9, TLCEval([k \in DOMAIN e[2] |-> MC_(e[2][k])])>>
MCompiled == TLCEval([k \in 1..Len(MRuleSeq) |-> MC_(MRules[MRuleSeq[k]])])

MBase   == 1000000     \* registers for the memory
MMaxLen == 1000        \* stretches are shorter than this
\* MMemo(slot, epoch, val) = val
MMemo(slot, epoch, val) ==
  LET m == TLCGetOrDefault(slot, <<-1>>)
  IN IF m[1] = epoch THEN m[2]
     ELSE LET v == val IN IF TLCSet(slot, <<epoch, v>>) THEN v ELSE v

\* A context is <<characters of the chunk, where the next non-comma is, length, epoch>>.
RECURSIVE NonComma(_, _)
NonComma(cs, i) == IF i <= Len(cs) /\ cs[i] = "," THEN NonComma(cs, i + 1) ELSE i
MCtx(cs, ep) == <<IF Assert(Len(cs) + 1 < MMaxLen, "the stretch is too long") THEN cs ELSE cs, TLCEval([i \in 1..(Len(cs) + 1) |-> NonComma(cs, i)]), Len(cs), ep>>

\* Mo[<<cx, e, i>>]: where the match of e at i ends, 0 if there is none.
\* (A function, because TLC evaluates recursive functions faster than recursive operators.
\* Tags above 20 are loops: 23 rest of a sequence, 24 of a choice, 25 repetition, 29 longest.)
Mo[x \in Any] ==
  LET cx == x[1]
      e  == x[2]
      i  == x[3]
      t  == e[1] IN
  CASE t = 1 -> MMemo(MBase + e[2] * MMaxLen + i, cx[4], Mo[<<cx, MCompiled[e[2]], i>>])
    [] t = 2 -> LET k == cx[2][i] IN IF k <= cx[3] /\ cx[1][k] \in e[2] THEN k + 1 ELSE 0
    [] t = 3 -> IF e[2] = <<>> THEN i ELSE Mo[<<cx, <<23, e[2], 1>>, i>>]
    [] t = 23 -> LET r == Mo[<<cx, e[2][e[3]], i>>] IN
                 IF r = 0 \/ e[3] = Len(e[2]) THEN r ELSE Mo[<<cx, <<23, e[2], e[3] + 1>>, r>>]
    [] t = 4 -> Mo[<<cx, <<24, e[2], 1>>, i>>]
    [] t = 24 -> LET r == Mo[<<cx, e[2][e[3]], i>>] IN
                 IF r # 0 \/ e[3] = Len(e[2]) THEN r ELSE Mo[<<cx, <<24, e[2], e[3] + 1>>, i>>]
    [] t = 5 -> LET r == Mo[<<cx, e[2], i>>] IN IF r = 0 \/ r = i THEN i ELSE Mo[<<cx, e, r>>]
    [] t = 6 -> IF Mo[<<cx, e[2], i>>] = 0 THEN i ELSE 0
    [] t = 7 -> IF Mo[<<cx, e[2], i>>] = 0 THEN 0 ELSE i
    [] t = 8 -> IF i = cx[3] + 1 THEN i ELSE 0
    [] t = 9 -> Mo[<<cx, <<29, e[2], 1, 0>>, i>>]
    [] t = 29 -> IF e[3] > Len(e[2]) THEN e[4]
                 ELSE LET r == Mo[<<cx, e[2][e[3]], i>>] IN
                      Mo[<<cx, <<29, e[2], e[3] + 1, IF r > e[4] THEN r ELSE e[4]>>, i>>]

Match(cx, rule, i) == Mo[<<cx, <<1, MRuleId[rule]>>, i>>]
Whole(cx, rule)    == Match(cx, rule, 1) = cx[3] + 1

\* the class of a whole word by its form alone
FormClass(cx) == IF Whole(cx, "cmevla") THEN "Cmevla"
                 ELSE IF Whole(cx, "bare_cmavo") THEN "UnknownCmavo"
                 ELSE IF Whole(cx, "gismu") THEN "Gismu"
                 ELSE IF Whole(cx, "fuhivla") THEN "Fuhivla"
                 ELSE IF Whole(cx, "lujvo") THEN "Lujvo"
                 ELSE "AnyText"

\* --- the words of a chunk --------------------------------------------------
ConsonantLetters == {"b","c","d","f","g","j","k","l","m","n","p","r","s","t","v","x","z",
                     "B","C","D","F","G","J","K","L","M","N","P","R","S","T","V","X","Z"}

\* what falls off the front at i: a cmavo, or a brivla with explicit stress
FallsOff(cx, i) == LET c == Match(cx, "bare_cmavo", i) IN
                   IF c # 0 THEN c ELSE Match(cx, "explicit_brivla", i)
\* may a word begin at i, right after a cmavo
WordStarts(cx, i) == /\ Match(cx, "nucleus", i) = 0
                     /\ \/ Match(cx, "gismu", i) # 0
                        \/ Match(cx, "fuhivla", i) # 0
                        \/ Match(cx, "lujvo", i) # 0
                        \/ Match(cx, "bare_cmavo", i) # 0

RECURSIVE Fall(_, _, _)
\* the places 1 = i0 < i1 < ... where something falls off, as far as that goes
Fall(cx, i, acc) == LET r == FallsOff(cx, i) IN IF r = 0 THEN Append(acc, i) ELSE Fall(cx, r, Append(acc, i))

\* cs: the chunk without trailing commas, not empty.  Words as <<start, end>>, end exclusive.
ChunkWords(cs, ep) ==
  LET n  == Len(cs)
      cx == MCtx(cs, ep) IN
  IF cs[n] \in ConsonantLetters THEN << <<1, n + 1>> >>       \* the whole chunk is a name
  ELSE LET f  == Fall(cx, 1, <<>>)
           \* the last thing that fell off stands alone only if a word can start after it
           b  == IF Len(f) > 1 /\ ~WordStarts(cx, f[Len(f)]) THEN SubSeq(f, 1, Len(f) - 1) ELSE f
           ws == [k \in 1..Len(b) |-> <<b[k], IF k < Len(b) THEN b[k + 1] ELSE n + 1>>] IN
       SelectSeq(ws, LAMBDA w : w[1] < w[2])
=============================================================================
