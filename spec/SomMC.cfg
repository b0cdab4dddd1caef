SPECIFICATION Spec
CONSTANTS MaxRows = 2
MaxCols = 2
MaxN = 3
MaxCoord = 2
Epochs = 2
Types = {"four", "eight", "honey", "func"}
INVARIANTS Symmetric Degrees Hull CaughtAll Decreasing
PROPERTIES Toward Locality
CHECK_DEADLOCK FALSE
