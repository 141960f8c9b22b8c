CONSTANTS
  Tags = {"i", "s", "d"}
  MaxLen = 5
INIT Init
NEXT Next
INVARIANTS Refines Lossless
CHECK_DEADLOCK FALSE
