SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxCoord = 4 MaxK = 3
INVARIANTS AtMost Fixpoint HalvesAreHalves Criteria
PROPERTIES SplitReduces ImproveKeeps Stops
CHECK_DEADLOCK FALSE
