SPECIFICATION Spec
CONSTANTS MaxStream = 6
MaxSample = 4
INVARIANTS DistinctPositions AllWhenShort SearchBracketed SearchFound Uniform
CHECK_DEADLOCK FALSE
