CONSTANTS MaxChoices = 9 MaxDraws = 12
INIT Init
NEXT Next
INVARIANTS Selected
CHECK_DEADLOCK FALSE
