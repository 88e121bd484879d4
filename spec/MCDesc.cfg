INIT Init
NEXT Next
INVARIANTS RoundTrip Back Known
CHECK_DEADLOCK FALSE
