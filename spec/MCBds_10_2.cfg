SPECIFICATION Spec
CONSTANTS H = 10
K = 2
Mix = FALSE
VIEW ViewOfIdx
INVARIANTS PathRight InBounds StackAccounted
CHECK_DEADLOCK FALSE
