SPECIFICATION Spec
CONSTANTS MaxN = 2
MaxCoord = 5
INVARIANTS SumsToOne NearerMore ReadingSound ReadingSharp
CHECK_DEADLOCK FALSE
