SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxCoord = 3 MaxK = 2 MaxNeighbor = 3 NumLocal = 1
INVARIANTS DistinctMedoids NotWorseThanStart NotWorseThanSeen OptimumWhenAllSeen
PROPERTIES BestIsBest Ends
CHECK_DEADLOCK FALSE
