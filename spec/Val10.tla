------------------------------- MODULE Val10 -------------------------------
(***************************************************************************)
(* C10: record [w, class, exp]: a word and the class the classifier gives  *)
(* it; or [table], the conventional names of all classes,                  *)
(* <<class, name, fundamentally experimental>>.                            *)
(***************************************************************************)
EXTENDS Judge, Words

TableOk(t) ==
  /\ \A k \in DOMAIN t : /\ t[k][2] = SelmahoRepr[t[k][1]]
                         /\ (t[k][3] = 1) <=> (t[k][1] \in FundamentallyExperimental)
  /\ \A k, m \in DOMAIN t : k # m => t[k][2] # t[m][2]

V(r, ep) ==
  IF "table" \in DOMAIN r THEN IF TableOk(r.table) THEN "ok" ELSE "the table of names is wrong"
  ELSE IF ClassOf(r.w, ep) = <<r.class, r.exp>> THEN "ok"
       ELSE "the class of the word is wrong, it should be " \o ClassOf(r.w, ep)[1]
=============================================================================
