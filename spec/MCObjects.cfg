SPECIFICATION Spec
CONSTANTS
  Handles = {a, b, c}
  Seeds = {s, t}
  N = 2
  Deep = TRUE
  OwnScratch = TRUE
  Shared = shared
INVARIANTS InStep Owned
PROPERTIES Implements Independent
CHECK_DEADLOCK FALSE
