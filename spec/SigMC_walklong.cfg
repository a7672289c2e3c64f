CONSTANTS Alphabet = {115, 97, 40, 41, 123, 125}
 MaxLen = 5
 Prefixed = 2
 Moves = 1
INIT Init
NEXT Next
INVARIANTS Grammar Tree Inside StepStays DownUp Cut
PROPERTY FirstDefect
CHECK_DEADLOCK FALSE
