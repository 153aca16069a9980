INIT Init
NEXT Next
CONSTANT MaxRows = 7
INVARIANT Agree
