SPECIFICATION Spec
CONSTANT Depth = 4
CONSTRAINT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
