SPECIFICATION Spec
CONSTANTS Branch = 2 MaxEntries = 1 Thr = 1 MaxPoints = 4 MaxCoord = 3
INVARIANTS Sound
PROPERTIES Effect
CHECK_DEADLOCK FALSE
