INIT Init
NEXT Next
CONSTANT Depth = 5
INVARIANT NonInterference
