CONSTANT MaxSteps = 4
INIT Init
NEXT Next
INVARIANTS Value Bilinear Symmetric Variance Totals
CHECK_DEADLOCK FALSE
