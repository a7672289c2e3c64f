INIT Init
NEXT Next
CONSTANTS MaxLen = 40 Fills = {0, 100, 201}
INVARIANTS Say SwapTwice Disjoint Inside OnlyMember
CHECK_DEADLOCK FALSE
