SPECIFICATION Spec
CONSTANTS
  Handles = {a, b}
  Seeds = {s, t}
  N = 4
  Deep = TRUE
  OwnScratch = TRUE
  Shared = shared
INVARIANTS InStep Owned
PROPERTIES Implements Independent
CHECK_DEADLOCK FALSE
