INIT Init
NEXT Next
CONSTANTS NBits = 12
 W = 16
INVARIANTS Antichain Injective Complete
CHECK_DEADLOCK FALSE
