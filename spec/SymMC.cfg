INIT Init
NEXT Next
CONSTANTS MaxLen = 4 MaxBytes = 3
INVARIANTS Report Valid LossyFits RoundTrip
CHECK_DEADLOCK FALSE
