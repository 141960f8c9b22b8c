CONSTANTS Diag = {0, 1, 2, 5, 9} Off = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Reproduces Descending ZeroMeansDone DetIsPivots RootSquares InverseFromRoot Blocked
CHECK_DEADLOCK FALSE
