SPECIFICATION Spec
CONSTANTS MaxN = 5
MaxCoord = 3
INVARIANTS NeverTwice AlwaysPossible CoincideLate TwiceOptimal FarthestDrawable DrawsExact
CHECK_DEADLOCK FALSE
