CONSTANTS Mode = 1
 Depth = 14
 MaxBad = 2
 FaultsPick <- FaultsSome
 Rich = FALSE
 Straight = TRUE
INIT Init
NEXT Next
INVARIANTS WellFormed Bounded
PROPERTIES Visible RefusedKeeps CommitWhole
CHECK_DEADLOCK FALSE
