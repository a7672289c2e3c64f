INIT Init
NEXT Next
CONSTANTS Sizes = {1, 8, 55, 56, 63, 64, 65} MaxCalls = 4
INVARIANTS Refines SameDigest
CHECK_DEADLOCK FALSE
