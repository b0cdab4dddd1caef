SPECIFICATION Spec
CONSTANTS Below = 3
Hi = 4
Kinds = {"sq", "manhattan", "chebyshev", "canberra", "chi", "gower", "user", "cubic"}
INVARIANTS SameKind Symmetric NonNegative ZeroForEqual Separates Ordered Triangle Bounded
CHECK_DEADLOCK FALSE
