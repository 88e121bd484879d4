SPECIFICATION Spec
CONSTANTS
  Handles = {a, b}
  Seeds = {s, t}
  N = 2
  Deep = FALSE
  OwnScratch = TRUE
  Shared = shared
PROPERTIES Implements Independent
CHECK_DEADLOCK FALSE
