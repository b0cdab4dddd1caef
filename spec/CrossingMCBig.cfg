SPECIFICATION Spec
CONSTANTS Scalars = {1}
MaxLen = 3
Modes = {"core", "python", "loader"}
INVARIANTS Nothing Right
PROPERTIES Arrives Decides
CHECK_DEADLOCK FALSE
