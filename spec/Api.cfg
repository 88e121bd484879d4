SPECIFICATION Spec
CONSTANTS Releases = TRUE
 Buffers = 4
INVARIANTS Owned NothingLeft
PROPERTY RefusalKeeps
CHECK_DEADLOCK FALSE
