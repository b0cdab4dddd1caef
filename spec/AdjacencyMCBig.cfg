SPECIFICATION Spec
CONSTANTS N = 3
Weights = {1, 2}
Bits = 2
MaxGrid = 3
INVARIANTS Represent OneEntry GridsRight
CHECK_DEADLOCK FALSE
