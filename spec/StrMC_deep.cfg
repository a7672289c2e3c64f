INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 48, 49, 57} MaxLen = 4 Long <- LongSome
INVARIANTS Report Antisymmetric Transitive ByValue
CHECK_DEADLOCK FALSE
