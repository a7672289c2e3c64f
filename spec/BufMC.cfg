INIT Init
NEXT Next
CONSTANTS MaxCalls = 2 Modes = {2, 3}
INVARIANT ReadInOrder
PROPERTIES KeepsCommitted RefusedKeeps CommitExact OnlyAsked
CHECK_DEADLOCK FALSE
