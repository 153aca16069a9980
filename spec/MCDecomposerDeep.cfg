INIT Init
NEXT Next
CONSTANTS Depth = 7
INVARIANTS InOrder Sound NothingLost CountRight Fused Write
