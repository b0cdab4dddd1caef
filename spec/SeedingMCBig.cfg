SPECIFICATION Spec
CONSTANTS MaxN = 7
MaxCoord = 5
INVARIANTS NeverTwice AlwaysPossible CoincideLate TwiceOptimal FarthestDrawable DrawsExact
CHECK_DEADLOCK FALSE
