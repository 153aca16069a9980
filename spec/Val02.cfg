INIT JInit
NEXT JNext
CONSTANT Verdict <- V
