SPECIFICATION Spec
CONSTANTS MaxN = 5
MaxCoord = 5
MaxTol = 1
INVARIANTS TypeOK LocalOptimum
PROPERTIES Descends
CHECK_DEADLOCK FALSE
