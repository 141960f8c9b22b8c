CONSTANTS
  Fs = {1, 2, 3}
  MaxLen = 3
  Depth = 3
  GenDepth = 2
INIT Init
NEXT Next
INVARIANTS NothingInvented DedupDistinct AlignedAgree AlignIsGeneral Regroups
CHECK_DEADLOCK FALSE
