SPECIFICATION Spec
CONSTANTS H = 4
 Depth = 5
CONSTRAINT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
