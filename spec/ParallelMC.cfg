SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxThreads = 3 MaxStep = 2
INVARIANTS Once Complete
PROPERTIES Legal Returns
CHECK_DEADLOCK FALSE
