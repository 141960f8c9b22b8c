CONSTANTS MaxCell = 2 MaxDepth = 2
INIT Init
NEXT Next
INVARIANTS SoFar Columns_ Complete
CHECK_DEADLOCK FALSE
