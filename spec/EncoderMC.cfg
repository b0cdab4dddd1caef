SPECIFICATION Spec
CONSTANTS N = 3
Values = {1, 2, 3}
K = 2
Depth = 3
INVARIANTS Proper NothingLost ExactIfDistinct
CHECK_DEADLOCK FALSE
