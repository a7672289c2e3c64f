CONSTANTS Alphabet = {115, 118, 97, 40, 41, 123, 125}
 MaxLen = 6
 Prefixed = 0
 Moves = 0
INIT Init
NEXT Next
INVARIANTS Grammar Tree Inside StepStays DownUp Cut
PROPERTY FirstDefect
CHECK_DEADLOCK FALSE
