CONSTANTS Alphabet = {115, 116, 97, 40, 41, 123, 125}
 MaxLen = 6
 Prefixed = 0
 Moves = 2
INIT Init
NEXT Next
INVARIANTS Grammar Tree Inside StepStays DownUp Cut
PROPERTY FirstDefect
CHECK_DEADLOCK FALSE
