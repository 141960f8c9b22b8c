INIT Init
NEXT Next
INVARIANTS Composes SumIsMap ScaleIsMap PartIsMap Symmetric
CHECK_DEADLOCK FALSE
