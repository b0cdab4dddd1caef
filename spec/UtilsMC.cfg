SPECIFICATION Spec
CONSTANTS MaxStream = 5
MaxSample = 3
INVARIANTS DistinctPositions AllWhenShort SearchBracketed SearchFound Uniform
CHECK_DEADLOCK FALSE
