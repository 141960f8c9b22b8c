CONSTANTS MaxLen = 5
INIT Init
NEXT Next
INVARIANTS NamesNeverChange LastWrite ForcedInside PackUnpack ValidMeansTunable OutsideHasNoDensity
PROPERTIES Frame OneName FixedKept
CHECK_DEADLOCK FALSE
