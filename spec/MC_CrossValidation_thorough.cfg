CONSTANTS N = 5 MaxGen = 5
INIT Init
NEXT Next
INVARIANTS BlockIsConditional MeanIsRefit FlatWhenDone Partition
CHECK_DEADLOCK FALSE
