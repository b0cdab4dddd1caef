SPECIFICATION Spec
CONSTANTS Modes = {"ensembles", "sync"}
N = 3
Grid = 7
Tols = {1000, 100000, 200000}
Steps = 3
INVARIANTS Placed Rotated Same Opposite Views Orders
PROPERTIES Momentum Stays Gathers
CHECK_DEADLOCK FALSE
