------------------------------- MODULE MCSpan -------------------------------
(***************************************************************************)
(* The definitions of Span.tla agree with each other, and overlap has the  *)
(* properties claimed of it, for all pairs of positions up to Max.         *)
(***************************************************************************)
EXTENDS Span
CONSTANTS Max, Base
VARIABLES a, b, p
vars == <<a, b, p>>
Spans == {s \in (0..Max) \X (0..Max) : s[1] <= s[2]}
Init == a \in Spans /\ b \in Spans /\ p \in 0..Max
Next == FALSE /\ UNCHANGED vars

Pos(n)  == <<n \div Base, n % Base>>
F(s)    == <<Pos(s[1]), Pos(s[2])>>
G(s)    == IF s = <<>> THEN <<>> ELSE F(s)

Agree == /\ FLen(F(a), Base) = Pos(SpLen(a))
         /\ FNew(Pos(p), Pos(a[1])) = G(SpNew(p, a[1]))
         /\ FEmpty(F(a)) = SpEmpty(a)
         /\ FContains(F(a), Pos(p)) = SpContains(a, p)
         /\ (FOverlap(F(a), F(b)) = SpOverlap(a, b))
         /\ FBetween(F(a), F(b)) = G(SpBetween(a, b))
Symmetric  == SpOverlap(a, b) = SpOverlap(b, a)
Disjoint   == SpBetween(a, b) # <<>> =>
                LET g == SpBetween(a, b) IN ~SpOverlap(g, a) /\ ~SpOverlap(g, b) /\ ~SpOverlap(a, b) /\ ~SpEmpty(g)
Exclusive  == ~(SpBetween(a, b) # <<>> /\ SpBetween(b, a) # <<>>)
\* two positions overlap, touch or leave a gap
Trichotomy == SpOverlap(a, b) \/ SpBetween(a, b) # <<>> \/ SpBetween(b, a) # <<>> \/ a[2] = b[1] \/ b[2] = a[1]
=============================================================================
