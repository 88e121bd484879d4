SPECIFICATION Spec
CONSTANTS Releases = FALSE
 Buffers = 4
INVARIANTS Owned NothingLeft
PROPERTY RefusalKeeps
CHECK_DEADLOCK FALSE
