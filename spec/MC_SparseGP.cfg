CONSTANTS MaxSteps = 2 MaxGen = 4
INIT Init
NEXT Next
INVARIANTS SameAsAtOnce Exact Symmetric
PROPERTY RebaseKeeps
CHECK_DEADLOCK FALSE
