CONSTANTS Rounds = 1 MaxEvals = 2
INIT Init
NEXT Next
INVARIANTS ResultIsBest ResultExists BestIsKnown InBounds Budget BoundsHold
CHECK_DEADLOCK FALSE
