CONSTANTS
  MaxN = 4
  MaxIdx = 4
INIT Init
NEXT Next
INVARIANTS Refines ComplementLaw ReadBack
CHECK_DEADLOCK FALSE
