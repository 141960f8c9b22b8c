CONSTANTS Diag = {0, 1, 2, 5} Off = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS Reproduces Descending ZeroMeansDone DetIsPivots RootSquares InverseFromRoot Blocked
CHECK_DEADLOCK FALSE
