INIT Init
NEXT Next
CONSTANTS MaxSize = 3
CHECK_DEADLOCK FALSE
INVARIANTS ChainRule EntropyIsMeanNll EntropyOfProduct Roots Metric OneDimension EnergyPositive Equivariant Sure
