SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3}
  Depth = 5
  MaxCalls = 4
CONSTRAINT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
