CONSTANTS MaxN = 4 MaxW = 3
SPECIFICATION Spec
INVARIANT Allowed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
