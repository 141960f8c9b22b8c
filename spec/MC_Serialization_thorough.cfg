CONSTANTS MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Faithful LastCell CanFinish
CHECK_DEADLOCK FALSE
