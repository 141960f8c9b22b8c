CONSTANTS Rounds = 1 MaxEvals = 3
INIT Init
NEXT Next
INVARIANTS ResultIsBest ResultExists BestIsKnown InBounds Budget BoundsHold
CHECK_DEADLOCK FALSE
