CONSTANTS
  Fs = {1, 2, 3}
  MaxLen = 3
  Depth = 4
  GenDepth = 3
INIT Init
NEXT Next
INVARIANTS NothingInvented DedupDistinct AlignedAgree AlignIsGeneral Regroups
CHECK_DEADLOCK FALSE
