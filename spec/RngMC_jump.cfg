INIT Init
NEXT Next
CONSTANTS Seeds <- SeedsA MaxCalls = 4 MaxGens = 1 Jumps = {9, 10}
INVARIANTS Odd NonZero SplitTwice Commutes
PROPERTY Local
CHECK_DEADLOCK FALSE
