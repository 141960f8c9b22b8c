CONSTANTS MaxN = 3 MaxW = 3
SPECIFICATION Spec
INVARIANT Allowed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
