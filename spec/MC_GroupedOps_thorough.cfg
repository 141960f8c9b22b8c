CONSTANTS
  Ks = {1, 2, 3}
  Vs = {3, 7}
  Depth = 3
INIT Init
NEXT Next
INVARIANTS IsImage Complementary
CHECK_DEADLOCK FALSE
