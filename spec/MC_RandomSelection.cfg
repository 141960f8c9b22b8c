CONSTANTS MaxChoices = 6 MaxDraws = 8
INIT Init
NEXT Next
INVARIANTS Selected
CHECK_DEADLOCK FALSE
