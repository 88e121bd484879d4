SPECIFICATION Spec
CONSTANTS H = 4
 Depth = 7
CONSTRAINT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
