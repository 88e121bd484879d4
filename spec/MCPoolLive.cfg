SPECIFICATION Spec
CONSTANTS
  Callers = {c1, c2}
  Calls = 1
  Sizes = {0, 1, 2}
  FailSets <- FS
  NoCaller = none
INVARIANTS Safe Covered OneBuildEach SeenRight Bounded LockAlwaysReleasable
PROPERTIES EveryCallReturns Ends
CHECK_DEADLOCK FALSE
