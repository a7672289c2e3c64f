INIT Init
NEXT Next
CONSTANTS Forms = {1,2,7,14,15} MaxCalls = 5 MaxHandles = 3 MaxObjs = 2
INVARIANTS DropOnce NoDangling CountFits
PROPERTIES BorrowKeeps OnlyWriteWrites SameObject
CHECK_DEADLOCK FALSE
