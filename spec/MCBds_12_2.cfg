SPECIFICATION Spec
CONSTANTS H = 12
K = 2
Mix = FALSE
VIEW ViewOfIdx
INVARIANTS PathRight InBounds StackAccounted
CHECK_DEADLOCK FALSE
