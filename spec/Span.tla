-------------------------------- MODULE Span --------------------------------
(***************************************************************************)
(* Positions: a <<s, e>> with s <= e stands for the set of bytes s..e-1.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Bytes(a)          == a[1]..(a[2] - 1)
SpLen(a)          == Cardinality(Bytes(a))
SpEmpty(a)        == Bytes(a) = {}
SpContains(a, p)  == p \in Bytes(a)
\* a position cannot end before it starts
SpNew(s, e)       == IF s <= e THEN <<s, e>> ELSE <<>>
\* two positions overlap if they share bytes, or if one is empty and strictly inside the other
StrictlyIn(a, b)  == SpEmpty(a) /\ (a[1] - 1) \in Bytes(b) /\ a[1] \in Bytes(b)
SpOverlap(a, b)   == Bytes(a) \cap Bytes(b) # {} \/ StrictlyIn(a, b) \/ StrictlyIn(b, a)
\* what lies between a and a later b, if anything does
SpBetween(a, b)   == IF a[2] < b[1] THEN <<a[2], b[1]>> ELSE <<>>
\* slices of a text of n bytes whose characters begin at the bytes in bnd (n included)
SpSlice(a, n, bnd)  == IF a[2] <= n /\ a[1] \in bnd /\ a[2] \in bnd THEN a ELSE <<>>
SpBefore(a, n, bnd) == IF a[1] <= n /\ a[1] \in bnd THEN <<0, a[1]>> ELSE <<>>
SpAfter(a, n, bnd)  == IF a[2] <= n /\ a[2] \in bnd THEN <<a[2], n>> ELSE <<>>

(***************************************************************************)
(* The same for positions up to 2^32 - 1, which are beyond the integers of *)
(* TLC: <<high, low>> halves in base B (2^16).  MCSpan checks that they    *)
(* agree with the definitions above.                                       *)
(***************************************************************************)
FLt(x, y)       == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
FLe(x, y)       == FLt(x, y) \/ x = y
FSub(x, y, B)   == IF x[2] >= y[2] THEN <<x[1] - y[1], x[2] - y[2]>> ELSE <<x[1] - y[1] - 1, x[2] + B - y[2]>>
FNew(s, e)      == IF FLe(s, e) THEN <<s, e>> ELSE <<>>
FLen(a, B)      == FSub(a[2], a[1], B)
FEmpty(a)       == a[1] = a[2]
FContains(a, p) == FLe(a[1], p) /\ FLt(p, a[2])
FOverlap(a, b)  == FLt(a[1], b[2]) /\ FLt(b[1], a[2])
FBetween(a, b)  == IF FLt(a[2], b[1]) THEN <<a[2], b[1]>> ELSE <<>>
=============================================================================
