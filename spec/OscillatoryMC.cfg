SPECIFICATION Spec
CONSTANTS Modes = {"all", "delaunay", "hyst", "inhibitor"}
Side = 2
Values = {0, 7500, 10000, 15000}
Steps = 3
INVARIANTS Bounded
PROPERTIES Common Monotone TowardSigma
CHECK_DEADLOCK FALSE
