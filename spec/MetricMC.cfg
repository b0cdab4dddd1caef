SPECIFICATION Spec
CONSTANTS Below = 2
Hi = 2
Kinds = {"sq", "manhattan", "chebyshev", "canberra", "chi", "gower", "user", "cubic"}
INVARIANTS SameKind Symmetric NonNegative ZeroForEqual Separates Ordered Triangle Bounded
CHECK_DEADLOCK FALSE
