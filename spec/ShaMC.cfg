INIT Init
NEXT Next
CONSTANTS Sizes = {1, 55, 56, 63, 64, 65} MaxCalls = 3
INVARIANTS Refines SameDigest
CHECK_DEADLOCK FALSE
