CONSTANTS
  NKeys = 4
  MaxLen = 6
INIT Init
NEXT Next
INVARIANTS BuilderIsDefinition Partition FoldsAreComplements RecombinationLosesNothing Schemes
CHECK_DEADLOCK FALSE
