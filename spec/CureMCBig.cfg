SPECIFICATION Spec
CONSTANTS MaxN = 5
MaxCoord = 4
MaxR = 3
Cd = 2
INVARIANTS TypeOK Few Hull
PROPERTIES Ends
CHECK_DEADLOCK FALSE
