CONSTANTS Mode = 0
 Depth = 12
 MaxBad = 1
 Rich = FALSE
 Straight = TRUE
INIT Init
NEXT Next
INVARIANTS WellFormed Bounded
PROPERTIES Visible RefusedKeeps CommitWhole
CHECK_DEADLOCK FALSE
