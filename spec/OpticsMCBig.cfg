SPECIFICATION Spec
CONSTANTS MaxN = 5  MaxCoord = 5  MaxR = 3  MaxP = 2  MaxLen = 5  MaxVal = 3
INVARIANTS Bookkeeping Density Bounded
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
