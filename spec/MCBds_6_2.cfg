SPECIFICATION Spec
CONSTANTS H = 6
K = 2
Mix = TRUE
VIEW ViewOfIdx
INVARIANTS PathRight InBounds StackAccounted
CHECK_DEADLOCK FALSE
