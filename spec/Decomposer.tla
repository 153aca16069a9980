----------------------------- MODULE Decomposer -----------------------------
(***************************************************************************)
(* The decomposer as a machine that answers requests.  t is the text it    *)
(* works on:  [chunks |-> its stretches, words |-> the words of each].     *)
(* A word is a tuple that starts with its span.                            *)
(*                                                                         *)
(* The state: next, the first stretch not begun; pend, the words of the    *)
(* stretch before it not yet yielded.  An answer is <<>> for "no more".    *)
(* Each request is a function from a state to <<new state, answer>>.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

DStart == [next |-> 1, pend |-> <<>>]

RECURSIVE Wordy(_, _)
\* the first stretch from k on that has words
Wordy(t, k) == IF k > Len(t.chunks) THEN k
               ELSE IF t.words[k] # <<>> THEN k ELSE Wordy(t, k + 1)

\* the next word
DWord(t, d) ==
  IF d.pend # <<>> THEN <<[d EXCEPT !.pend = Tail(d.pend)], Head(d.pend)>>
  ELSE LET k == Wordy(t, d.next) IN
       IF k > Len(t.chunks) THEN <<[next |-> k, pend |-> <<>>], <<>>>>
       ELSE <<[next |-> k + 1, pend |-> Tail(t.words[k])], Head(t.words[k])>>

\* the rest of the current stretch if a word of it is left, else the next stretch, as it stands
DRaw(t, d) ==
  IF d.pend # <<>> THEN <<[d EXCEPT !.pend = <<>>], <<Head(d.pend)[1], t.chunks[d.next - 1][2]>>>>
  ELSE IF d.next > Len(t.chunks) THEN <<d, <<>>>>
  ELSE <<[d EXCEPT !.next = d.next + 1], t.chunks[d.next]>>

\* how many words are left
RECURSIVE CountFrom(_, _)
CountFrom(t, k) == IF k > Len(t.chunks) THEN 0 ELSE Len(t.words[k]) + CountFrom(t, k + 1)
DLeft(t, d) == Len(d.pend) + CountFrom(t, d.next)

\* all that is left, word by word or stretch by stretch
RECURSIVE DWords(_, _), DRaws(_, _)
DWords(t, d) == LET r == DWord(t, d) IN IF r[2] = <<>> THEN <<>> ELSE <<r[2]>> \o DWords(t, r[1])
DRaws(t, d)  == LET r == DRaw(t, d)  IN IF r[2] = <<>> THEN <<>> ELSE <<r[2]>> \o DRaws(t, r[1])

\* the word after k others
RECURSIVE DNth(_, _, _)
DNth(t, d, k) == LET r == DWord(t, d) IN IF k = 0 \/ r[2] = <<>> THEN r ELSE DNth(t, r[1], k - 1)

\* a size hint <<lo, hi>> (hi = -1: none) is truthful
DHintOk(t, d, h) == h[1] <= DLeft(t, d) /\ (h[2] = -1 \/ DLeft(t, d) <= h[2])
=============================================================================
