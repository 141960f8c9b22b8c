CONSTANTS MaxDraws = 2 MaxScript = 2
INIT Init
NEXT Next
INVARIANTS Sampled Bounded Honest GoodAreQualified GreedyIsBest
CHECK_DEADLOCK FALSE
