SPECIFICATION Spec
CONSTANTS H = 6
K = 4
Mix = TRUE
VIEW ViewOfIdx
INVARIANTS PathRight InBounds StackAccounted
CHECK_DEADLOCK FALSE
