SPECIFICATION Spec
CONSTANTS MaxN = 6
MaxCoord = 5
MaxR = 3
INVARIANTS TypeOK Inside Meaning
PROPERTIES Stops
CHECK_DEADLOCK FALSE
