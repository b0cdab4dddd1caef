SPECIFICATION Spec
CONSTANTS MaxN = 3
Steps = 4
Links = {500, 1000}
Starts = {0, 5000, 12000}
Structures = {"none", "all", "list"}
INVARIANTS Silence Symmetric Positive EnsemblesRight
PROPERTIES Refractory
CHECK_DEADLOCK FALSE
