CONSTANTS MaxDraws = 3 MaxScript = 3
INIT Init
NEXT Next
INVARIANTS Sampled Bounded Honest GoodAreQualified GreedyIsBest
CHECK_DEADLOCK FALSE
