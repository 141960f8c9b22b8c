CONSTANT MaxSize = 2
INIT Init
NEXT Next
INVARIANTS Symmetric Commutes Bilinear MeasuredOnly Stored
CHECK_DEADLOCK FALSE
