SPECIFICATION Spec
CONSTANTS MaxN = 7 MaxCoord = 6 Steps = 12
INVARIANTS Distribution Weights Hull
PROPERTIES LikelihoodGrows
CHECK_DEADLOCK FALSE
