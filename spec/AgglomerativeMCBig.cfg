SPECIFICATION Spec
CONSTANTS MaxN = 6
MaxCoord = 6
Links = {"single", "complete", "average", "centroid"}
INVARIANTS TypeOK SingleMeaning CompleteMeaning
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
