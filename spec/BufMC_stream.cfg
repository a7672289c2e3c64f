INIT Init
NEXT Next
CONSTANTS MaxCalls = 3 Modes = {0, 1}
INVARIANT ReadInOrder
PROPERTIES KeepsCommitted RefusedKeeps CommitExact OnlyAsked
CHECK_DEADLOCK FALSE
