SPECIFICATION Spec
CONSTANTS Branch = 2 MaxEntries = 2 Thr = 1 MaxPoints = 5 MaxCoord = 3
INVARIANTS Sound
PROPERTIES Effect
CHECK_DEADLOCK FALSE
