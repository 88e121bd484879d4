INIT Init
NEXT Next
INVARIANTS Fits NoDominance Lengths
CHECK_DEADLOCK FALSE
