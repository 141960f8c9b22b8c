CONSTANTS N = 4
INIT Init
NEXT Next
INVARIANTS StepByStep Exact Shrinks Best
CHECK_DEADLOCK FALSE
