SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxCoord = 3 MaxK = 3 MaxNeighbor = 3 NumLocal = 2
INVARIANTS DistinctMedoids NotWorseThanStart NotWorseThanSeen OptimumWhenAllSeen
PROPERTIES BestIsBest Ends
CHECK_DEADLOCK FALSE
