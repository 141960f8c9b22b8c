CONSTANT NKeys = 5
INIT Init
NEXT Next
INVARIANTS MergeIsDefinition Progress Laws
CHECK_DEADLOCK FALSE
