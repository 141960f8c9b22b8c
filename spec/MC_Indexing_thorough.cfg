CONSTANTS
  MaxN = 5
  MaxIdx = 5
INIT Init
NEXT Next
INVARIANTS Refines ComplementLaw ReadBack
CHECK_DEADLOCK FALSE
