SPECIFICATION Spec
CONSTANT Depth = 3
CONSTRAINT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
