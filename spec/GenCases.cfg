INIT Init
NEXT Next
CONSTANT DirectDigest <- Direct
CHECK_DEADLOCK FALSE
