CONSTANTS
  NKeys = 3
  MaxLen = 5
INIT Init
NEXT Next
INVARIANTS BuilderIsDefinition Partition FoldsAreComplements RecombinationLosesNothing Schemes
CHECK_DEADLOCK FALSE
