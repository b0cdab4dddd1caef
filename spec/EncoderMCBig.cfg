SPECIFICATION Spec
CONSTANTS N = 4
Values = {1, 2, 3, 4}
K = 3
Depth = 4
INVARIANTS Proper NothingLost ExactIfDistinct
CHECK_DEADLOCK FALSE
