NOT_CLAIMED = {}
T = 'TLA+ specification model-checked with TLC; recorded executions of the real code validated by TLC against it'
STD = ('TLC explores the specification exhaustively in a small scope and validates every recorded execution of the real code (Python and C++ core '
       'built from the working tree) against it; executions come from enumerated and seeded lattice inputs, so assurance on the code is bounded by those. ')
import collections
NOTES = collections.defaultdict(lambda: (T, STD + 'Trusts TLC, the recording driver and fixed-point rounding of reported reals.'))
