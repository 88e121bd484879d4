CONSTANTS Depth = 6
          Msgs = {"m1", "m2"}
SPECIFICATION Spec
INVARIANTS Authentic NeverMixed Complete
CHECK_DEADLOCK FALSE
