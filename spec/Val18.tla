------------------------------- MODULE Val18 -------------------------------
(***************************************************************************)
(* C18: record [op, a, b, n, bnd, r]: an operation on the position a (and  *)
(* the position or location b, or a text of n bytes with the character     *)
(* boundaries bnd) and its result r, <<>> for none.  Ops in upper case are *)
(* on large positions in halves of 16 bits.                                *)
(***************************************************************************)
EXTENDS Judge, Span

Base == 65536
Range(s) == {s[k] : k \in DOMAIN s}
Truth(x) == IF x THEN <<1>> ELSE <<0>>

Expected(r) ==
  CASE r.op = "len"      -> <<SpLen(r.a)>>
    [] r.op = "empty"    -> Truth(SpEmpty(r.a))
    [] r.op = "contains" -> Truth(SpContains(r.a, r.b[1]))
    [] r.op = "overlaps" -> Truth(SpOverlap(r.a, r.b))
    [] r.op = "between"  -> SpBetween(r.a, r.b)
    [] r.op = "at"       -> r.a
    [] r.op = "new"      -> SpNew(r.a[1], r.a[2])
    [] r.op = "eq"       -> Truth(r.a = r.b)
    [] r.op = "slice"    -> SpSlice(r.a, r.n, Range(r.bnd))
    [] r.op = "before"   -> SpBefore(r.a, r.n, Range(r.bnd))
    [] r.op = "after"    -> SpAfter(r.a, r.n, Range(r.bnd))
    [] r.op = "entire"   -> <<0, r.n>>
    [] r.op = "embed"    -> r.a
    [] r.op = "LEN"      -> <<FLen(r.a, Base)>>
    [] r.op = "EMPTY"    -> Truth(FEmpty(r.a))
    [] r.op = "CONTAINS" -> Truth(FContains(r.a, r.b[1]))
    [] r.op = "OVERLAPS" -> Truth(FOverlap(r.a, r.b))
    [] r.op = "BETWEEN"  -> FBetween(r.a, r.b)
    [] r.op = "AT"       -> r.a
    [] r.op = "NEW"      -> FNew(r.a[1], r.a[2])
    [] r.op = "EQ"       -> Truth(r.a = r.b)

V(r, k) == IF r.r = Expected(r) THEN "ok" ELSE "the result of '" \o r.op \o "' is wrong"
=============================================================================
