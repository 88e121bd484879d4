SPECIFICATION Spec
CONSTANTS
  Callers = {c1, c2}
  Calls = 2
  Sizes = {0, 1, 2}
  FailSets <- FS
  NoCaller = none
INVARIANTS Safe Covered OneBuildEach SeenRight Bounded LockAlwaysReleasable
PROPERTIES Implements
CHECK_DEADLOCK FALSE
