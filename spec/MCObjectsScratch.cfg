SPECIFICATION Spec
CONSTANTS
  Handles = {a, b}
  Seeds = {s, t}
  N = 2
  Deep = TRUE
  OwnScratch = FALSE
  Shared = shared
PROPERTIES Implements Independent
CHECK_DEADLOCK FALSE
