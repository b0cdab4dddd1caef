SPECIFICATION Spec
CONSTANTS MaxN = 3  MaxCoord = 3  MaxM = 3  MaxThr = 2  Levels = 4
INVARIANTS Exact Partition Meaning
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
