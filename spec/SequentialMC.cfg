SPECIFICATION Spec
CONSTANTS MaxN = 4
MaxCoord = 3
INVARIANTS TypeOK Complete
CHECK_DEADLOCK FALSE
