SPECIFICATION Spec
CONSTANTS MaxN = 4  MaxCoord = 3  MaxR = 2  MaxP = 2  MaxLen = 4  MaxVal = 3
INVARIANTS Bookkeeping Density Bounded
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
