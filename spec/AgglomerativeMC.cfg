SPECIFICATION Spec
CONSTANTS MaxN = 4
MaxCoord = 5
Links = {"single", "complete", "average", "centroid"}
INVARIANTS TypeOK SingleMeaning CompleteMeaning
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
