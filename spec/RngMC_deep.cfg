INIT Init
NEXT Next
CONSTANTS Seeds <- SeedsA MaxCalls = 6 MaxGens = 3 Jumps = {}
INVARIANTS Odd NonZero SplitTwice Commutes
PROPERTY Local
CHECK_DEADLOCK FALSE
