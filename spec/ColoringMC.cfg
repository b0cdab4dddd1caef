SPECIFICATION Spec
CONSTANTS MaxN = 4  MaxStates = 3
INVARIANTS IsProper Contiguous Brooks TwoColours Acceptable
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
