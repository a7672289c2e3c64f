INIT Init
NEXT Next
CONSTANTS Forms = {1,2,3,4,5,6,7,8,9,10,14,15} MaxCalls = 6 MaxHandles = 2 MaxObjs = 1
INVARIANTS DropOnce NoDangling CountFits
PROPERTIES BorrowKeeps OnlyWriteWrites SameObject
CHECK_DEADLOCK FALSE
