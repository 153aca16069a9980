------------------------------- MODULE Export -------------------------------
\* Writes the rules of the specification as JSON, as a source of test inputs.
EXTENDS Words, Grammar, Json, IOUtils
VARIABLE x
Init == x = 0 /\ JsonSerialize(IOEnv.EXPORT, [morphology |-> MRules, grammar |-> GRules, lexicon |-> Lexicon,
                                              repr |-> SelmahoRepr])
Next == FALSE /\ x' = x
=============================================================================
