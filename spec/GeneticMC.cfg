SPECIFICATION Spec
CONSTANTS N = 4 K = 2 Pop = 2 Gens = 2
Data <- DataValue
INVARIANTS AllValid BestIsValid Renaming
PROPERTIES NeverWorse CrossKeepsGenes SelectInvents
CHECK_DEADLOCK FALSE
