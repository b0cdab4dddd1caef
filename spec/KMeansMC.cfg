SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxCoord = 3 MaxK = 2 Kind = "mean" Metric = "sq"
INVARIANTS Bounded
PROPERTIES Legal Descent Converges
CHECK_DEADLOCK FALSE
