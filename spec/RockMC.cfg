SPECIFICATION Spec
CONSTANTS MaxN = 4
MaxCoord = 5
MaxR = 3
INVARIANTS TypeOK Inside Meaning
PROPERTIES Stops
CHECK_DEADLOCK FALSE
