INIT Init
NEXT Next
CONSTANTS WB = 4
BB = 4
INVARIANTS ReadBack Real
CHECK_DEADLOCK FALSE
