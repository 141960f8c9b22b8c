CONSTANTS MaxCell = 3 MaxDepth = 3
INIT Init
NEXT Next
INVARIANTS SoFar Columns_ Complete
CHECK_DEADLOCK FALSE
