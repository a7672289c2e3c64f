INIT Init
NEXT Next
CONSTANTS Addrs <- AddrsA MaxCalls = 3
INVARIANT Fits
PROPERTIES Independent OneBit
CHECK_DEADLOCK FALSE
