CONSTANTS MaxLen = 3
INIT Init
NEXT Next
INVARIANTS NoDangling SeesAll
PROPERTIES OwnersKeep ModelsKept FitsKept OneFit
CHECK_DEADLOCK FALSE
