SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxCoord = 3 MaxK = 2 Kind = "median" Metric = "manhattan"
INVARIANTS Bounded
PROPERTIES Legal Descent Converges
CHECK_DEADLOCK FALSE
