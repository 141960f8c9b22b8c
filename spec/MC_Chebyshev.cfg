CONSTANT MaxN = 24
INIT Init
NEXT Next
INVARIANTS Agrees Pell Mixed Bounded Ends
CHECK_DEADLOCK FALSE
