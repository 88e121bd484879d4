INIT Init
NEXT Next
CONSTANTS NBits = 10
 W = 4
INVARIANTS Antichain Injective Complete
CHECK_DEADLOCK FALSE
