SPECIFICATION Spec
CONSTANTS N = 3
Weights = {1}
Bits = 2
MaxGrid = 4
INVARIANTS Represent OneEntry GridsRight
CHECK_DEADLOCK FALSE
