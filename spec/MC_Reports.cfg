CONSTANTS MaxEvals = 2 MaxList = 2
INIT Init
NEXT Next
INVARIANTS Judged WrongEnd GreedyJudged
CHECK_DEADLOCK FALSE
