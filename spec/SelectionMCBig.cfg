SPECIFICATION Spec
CONSTANTS Levels = {1, 2, 3, 5}
MaxLen = 4
INVARIANTS BestOfSeen AmountIsBest NoneWithout InRange OneIffTight PartsRight ErrorZero OnTheLine
CHECK_DEADLOCK FALSE
