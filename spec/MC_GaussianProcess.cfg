CONSTANTS MaxSteps = 3 MaxGen = 4
INIT Init
NEXT Next
INVARIANTS SameAsBatch Measurements NoBaseIsPosterior Symmetric
PROPERTY MoreCertain
CHECK_DEADLOCK FALSE
