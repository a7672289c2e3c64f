CONSTANTS Alphabet = {115, 118, 97, 40, 41, 125, 200}
 MaxLen = 4
 Prefixed = 1
 Moves = 0
INIT Init
NEXT Next
INVARIANTS Grammar Tree Inside StepStays DownUp Cut
PROPERTY FirstDefect
CHECK_DEADLOCK FALSE
