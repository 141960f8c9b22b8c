CONSTANTS N = 3 MaxGen = 4
INIT Init
NEXT Next
INVARIANTS BlockIsConditional MeanIsRefit FlatWhenDone Partition
CHECK_DEADLOCK FALSE
