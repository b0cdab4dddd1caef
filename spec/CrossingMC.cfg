SPECIFICATION Spec
CONSTANTS Scalars = {1, 2}
MaxLen = 2
Modes = {"core", "python", "loader"}
INVARIANTS Nothing Right
PROPERTIES Arrives Decides
CHECK_DEADLOCK FALSE
