CONSTANTS MaxSteps = 1 MaxGen = 5 Steps = {"1/2", "2/3", "1", "2"}
INIT Init
NEXT Next
INVARIANTS InSupport EveryWalkerOnce
CHECK_DEADLOCK FALSE
