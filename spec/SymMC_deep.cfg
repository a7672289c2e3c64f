INIT Init
NEXT Next
CONSTANTS MaxLen = 5 MaxBytes = 4
INVARIANTS Report Valid LossyFits RoundTrip
CHECK_DEADLOCK FALSE
