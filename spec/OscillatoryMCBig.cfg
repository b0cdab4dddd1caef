SPECIFICATION Spec
CONSTANTS Modes = {"all", "delaunay", "hyst", "inhibitor"}
Side = 3
Values = {0, 3333, 7500, 10000, 15000}
Steps = 4
INVARIANTS Bounded
PROPERTIES Common Monotone TowardSigma
CHECK_DEADLOCK FALSE
