CONSTANT MaxLen = 4
INIT Init
NEXT Next
INVARIANTS SizeHonest NoSilentLoss Settles
CHECK_DEADLOCK FALSE
