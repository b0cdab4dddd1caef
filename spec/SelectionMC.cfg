SPECIFICATION Spec
CONSTANTS Levels = {1, 4}
MaxLen = 3
INVARIANTS BestOfSeen AmountIsBest NoneWithout InRange OneIffTight PartsRight ErrorZero OnTheLine
CHECK_DEADLOCK FALSE
