SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxCoord = 6 MaxK = 4
INVARIANTS AtMost Fixpoint HalvesAreHalves Criteria
PROPERTIES SplitReduces ImproveKeeps Stops
CHECK_DEADLOCK FALSE
