INIT Init
NEXT Next
CONSTANTS Depth = 5
INVARIANTS InOrder Sound NothingLost CountRight Fused Write
