SPECIFICATION Spec
CONSTANTS MaxN = 4
MaxCoord = 4
MaxTol = 1
INVARIANTS TypeOK LocalOptimum
PROPERTIES Descends
CHECK_DEADLOCK FALSE
