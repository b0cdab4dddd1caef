SPECIFICATION Spec
CONSTANTS MaxN = 4
MaxCoord = 4
MaxR = 2
Cd = 2
INVARIANTS TypeOK Few Hull
PROPERTIES Ends
CHECK_DEADLOCK FALSE
