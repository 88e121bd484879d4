INIT Init
NEXT Next
CONSTANTS NBits = 8
 W = 256
INVARIANTS Antichain Injective Complete
CHECK_DEADLOCK FALSE
