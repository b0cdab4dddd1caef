SPECIFICATION Spec
CONSTANTS Dims = 2 MaxCoord = 2 MaxOps = 5 Radii = {0, 1, 2}
INVARIANTS Contents Ordered Lookup Search
CHECK_DEADLOCK FALSE
