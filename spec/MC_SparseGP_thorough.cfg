CONSTANTS MaxSteps = 3 MaxGen = 5
INIT Init
NEXT Next
INVARIANTS SameAsAtOnce Exact Symmetric
PROPERTY RebaseKeeps
CHECK_DEADLOCK FALSE
