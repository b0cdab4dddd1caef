SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxCoord = 5 Steps = 6
INVARIANTS Distribution Weights Hull
PROPERTIES LikelihoodGrows
CHECK_DEADLOCK FALSE
