SPECIFICATION Spec
CONSTANTS N = 3
Instances = {1, 2}
Noisy = TRUE
Deterministic = FALSE
MaxRuns = 2
INVARIANTS Intact Whole Told Agree NoNoise
PROPERTIES Stable Answers
CHECK_DEADLOCK FALSE
