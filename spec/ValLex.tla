------------------------------- MODULE ValLex -------------------------------
(***************************************************************************)
(* C06-C09: record [cs, words, items, after]: a text; its words by plain   *)
(* iteration, each with its class, <<s, e, class, exp>>; the items the     *)
(* lexer yielded for it until it yielded nothing, and how many more it     *)
(* yielded when asked again.  Every item is one step of the machine of     *)
(* Lexer.tla; the sequence must be one of its behaviours.  A step that is  *)
(* not says which of the properties it breaks.                             *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, FiniteSets, Lexer

Records == ndJsonDeserialize(IOEnv.TRACE)
Texts   == [i \in DOMAIN Records |->
              LET ch == Chunks(Records[i].cs) IN
              [cs |-> Records[i].cs, chunks |-> ch, words |-> Grouped(Records[i].words, ch)]]

VARIABLES i, at, l, last, verdict
vars == <<i, at, l, last, verdict>>

Init == i \in DOMAIN Records /\ at = 0 /\ l = LStart /\ last = "none" /\ verdict = {}

IsError(item) == item # <<>> /\ item[1] \in Errors \cup {"OtherError"}

\* which properties a step from state s breaks that should have answered want and answered got
Blame(s, want, got) ==
  (IF IsError(want) \/ IsError(got) THEN {"C09"} ELSE {})
  \cup
  CASE s.owed # <<>> -> {"C07"}
    [] s.owed = <<>> /\ s.mode = "quote" -> IF IsError(want) /\ IsError(got) THEN {} ELSE {"C07"}
    [] s.owed = <<>> /\ s.mode = "pause" -> IF IsError(want) /\ IsError(got) THEN {} ELSE {"C08"}
    [] s.owed = <<>> /\ s.mode = "normal" ->
         IF IsError(want) THEN {}
         ELSE IF last = "quote" THEN {"C07"} ELSE IF last = "pause" THEN {"C08"} ELSE {"C06"}
    [] s.owed = <<>> /\ s.mode = "done" -> IF last = "error" THEN {"C09"} ELSE {"C06"}

\* what the item just yielded was part of
Kind(s, item) == IF IsError(item) THEN "error"
                 ELSE IF s.owed # <<>> \/ s.mode = "quote" THEN "quote"
                 ELSE IF s.mode = "pause" THEN "pause" ELSE "none"

Items(r) == r.items \o <<<<>>>>

\* asked for in other ways, the items are the same
Second(s) == [k \in 1..(Len(s) \div 2) |-> s[2 * k]]
Alike(r) ==
  r.ways # <<>> =>
    /\ r.ways.folded = r.items
    /\ r.ways.count = Len(r.items)
    /\ r.ways.nth = Second(r.items)
    /\ r.ways.last = IF r.items = <<>> THEN <<>> ELSE r.items[Len(r.items)]
    /\ r.ways.hint[1] <= Len(r.items) /\ (r.ways.hint[2] = -1 \/ Len(r.items) <= r.ways.hint[2])

Next == /\ verdict = {} /\ at < Len(Records[i].items) + 1
        /\ at' = at + 1 /\ i' = i
        /\ LET s    == LStep(Texts[i], l)
               got  == Items(Records[i])[at'] IN
           /\ l' = s[1]
           /\ last' = Kind(l, got)
           /\ verdict' = IF s[2] # got THEN Blame(l, s[2], got)
                         ELSE IF got = <<>> /\ Records[i].after # 0 THEN {"C09"}
                         ELSE IF got = <<>> /\ ~Alike(Records[i]) THEN {"C06"} ELSE {}
        /\ \A p \in verdict' : PrintT(<<"BAD", Records[i].id, p \o " item " \o ToString(at')>>)
=============================================================================
