SPECIFICATION Spec
CONSTANTS MaxN = 5
MaxCoord = 4
INVARIANTS TypeOK Complete
CHECK_DEADLOCK FALSE
