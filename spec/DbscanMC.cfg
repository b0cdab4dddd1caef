SPECIFICATION Spec
CONSTANTS MaxN = 5  MaxCoord = 4  MaxR = 2  MaxP = 3
INVARIANTS TypeOK Meaning
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
