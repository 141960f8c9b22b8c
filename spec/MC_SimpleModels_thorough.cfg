CONSTANTS N = 5
INIT Init
NEXT Next
INVARIANTS StepByStep Exact Shrinks Best
CHECK_DEADLOCK FALSE
