CONSTANTS MaxEvals = 3 MaxList = 3
INIT Init
NEXT Next
INVARIANTS Judged WrongEnd GreedyJudged
CHECK_DEADLOCK FALSE
