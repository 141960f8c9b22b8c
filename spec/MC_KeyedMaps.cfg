CONSTANT NKeys = 4
INIT Init
NEXT Next
INVARIANTS MergeIsDefinition Progress Laws
CHECK_DEADLOCK FALSE
