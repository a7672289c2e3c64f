CONSTANTS Mode = 1
 Depth = 4
 MaxBad = 1
 Rich = FALSE
 Straight = FALSE
INIT Init
NEXT Next
INVARIANTS WellFormed Bounded
PROPERTIES Visible RefusedKeeps CommitWhole
CHECK_DEADLOCK FALSE
