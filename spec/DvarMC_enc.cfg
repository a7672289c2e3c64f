CONSTANTS Mode = 0
 Depth = 5
 MaxBad = 1
 Rich = FALSE
 Straight = FALSE
INIT Init
NEXT Next
INVARIANTS WellFormed Bounded
PROPERTIES Visible RefusedKeeps CommitWhole
CHECK_DEADLOCK FALSE
