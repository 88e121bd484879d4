SPECIFICATION Spec
CONSTANTS H = 4
K = 2
Mix = TRUE
VIEW ViewOfIdx
INVARIANTS PathRight InBounds StackAccounted
CHECK_DEADLOCK FALSE
