CONSTANTS MaxK = 24 MaxZ = 40 MaxSamples = 3
INIT Init
NEXT Next
INVARIANTS Closed Ordered Recurrence
CHECK_DEADLOCK FALSE
