CONSTANTS MaxSteps = 4 MaxGen = 5
INIT Init
NEXT Next
INVARIANTS SameAsBatch Measurements NoBaseIsPosterior Symmetric
PROPERTY MoreCertain
CHECK_DEADLOCK FALSE
