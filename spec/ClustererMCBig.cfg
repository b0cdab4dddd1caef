SPECIFICATION Spec
CONSTANTS N = 3
Instances = {1, 2, 3}
Noisy = TRUE
Deterministic = TRUE
MaxRuns = 1
INVARIANTS Intact Whole Told Agree NoNoise
PROPERTIES Stable Answers
CHECK_DEADLOCK FALSE
