SPECIFICATION Spec
CONSTANTS N = 2
MaxT = 5
Thr = 1
INVARIANTS Detected CoreSpikes Reflexive
CHECK_DEADLOCK FALSE
