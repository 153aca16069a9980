INIT Init
NEXT Next
CONSTANTS Max = 8
          Base = 3
INVARIANTS Agree Symmetric Disjoint Exclusive Trichotomy
