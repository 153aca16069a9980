------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* A session: several things used alternately.  Each has its own state,    *)
(* and a request to one of them changes only that state; the answer is     *)
(* what a fresh thing of its kind answers when used alone.                  *)
(*                                                                         *)
(* A thing is a record: [kind |-> "D", chunks, words], a text to decompose *)
(* with its words; [kind |-> "L", items], a text to lex with its items;    *)
(* [kind |-> "P", result], tokens to parse with the outcome; or            *)
(* [kind |-> "W", result], a word to classify with its class.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Decomposer

SStart(th) == CASE th.kind = "D" -> DStart
                [] th.kind = "L" -> 0           \* items given out
                [] th.kind = "P" -> FALSE       \* parsed yet?
                [] th.kind = "W" -> 0

RECURSIVE SFlat(_, _)
SFlat(ws, k) == IF k > Len(ws) THEN <<>> ELSE ws[k] \o SFlat(ws, k + 1)

\* <<state afterwards, answer>> of request op to thing th in state s
SRequest(th, s, op) ==
  CASE op = "r" -> <<SStart(th), "-">>
    \* everything at once, from another place
    [] op = "a" -> <<s, CASE th.kind = "D" -> SFlat(th.words, 1) [] th.kind = "L" -> th.items [] OTHER -> th.result>>
    [] th.kind = "D" /\ op = "n" -> DWord(th, s)
    [] th.kind = "D" /\ op = "q" -> DRaw(th, s)
    [] th.kind = "D" /\ op = "c" -> <<s, DLeft(th, s)>>
    [] th.kind = "L" /\ op = "n" -> IF s < Len(th.items) THEN <<s + 1, th.items[s + 1]>> ELSE <<s, "[]">>
    [] th.kind = "P" /\ op = "p" -> <<TRUE, th.result>>
    [] th.kind = "P" /\ op = "t" -> <<s, IF s THEN th.result ELSE "-">>
    [] th.kind = "W" /\ op = "w" -> <<s, th.result>>
=============================================================================
