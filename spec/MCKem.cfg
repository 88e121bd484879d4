CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANTS Agreement SenderKey
PROPERTIES KeysStay
CHECK_DEADLOCK FALSE
