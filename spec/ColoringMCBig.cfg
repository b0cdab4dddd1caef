SPECIFICATION Spec
CONSTANTS MaxN = 5  MaxStates = 3
INVARIANTS IsProper Contiguous Brooks TwoColours Acceptable
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
