CONSTANTS MaxK = 60 MaxZ = 160 MaxSamples = 4
INIT Init
NEXT Next
INVARIANTS Closed Ordered Recurrence
CHECK_DEADLOCK FALSE
