CONSTANT MaxSize = 3
INIT Init
NEXT Next
INVARIANTS Symmetric Commutes Bilinear MeasuredOnly Stored
CHECK_DEADLOCK FALSE
