CONSTANTS Small = 2
INIT Init
NEXT Next
INVARIANTS Sound Agrees
PROPERTIES Ended
CHECK_DEADLOCK FALSE
