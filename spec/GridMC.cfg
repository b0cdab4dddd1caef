SPECIFICATION Spec
CONSTANTS MaxN = 3  MaxCoord = 2  MaxM = 3  MaxThr = 1  Levels = 3
INVARIANTS Exact Partition Meaning
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
