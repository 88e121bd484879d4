INIT Init
NEXT Next
CONSTANTS NBits = 8
 W = 4
INVARIANTS Antichain Injective Complete
CHECK_DEADLOCK FALSE
