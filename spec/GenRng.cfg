SPECIFICATION Spec
CONSTANT Sizes = {0, 1, 2, 3, 4, 5, 6}
CONSTRAINT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
