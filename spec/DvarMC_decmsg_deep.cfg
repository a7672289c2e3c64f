CONSTANTS Mode = 1
 Depth = 16
 MaxBad = 2
 Rich = FALSE
 Straight = TRUE
INIT Init
NEXT Next
INVARIANTS WellFormed Bounded
PROPERTIES Visible RefusedKeeps CommitWhole
CHECK_DEADLOCK FALSE
