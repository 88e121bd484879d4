SPECIFICATION Spec
CONSTANT DirectDigest <- Direct
INVARIANT Accepted
ALIAS Where
CHECK_DEADLOCK FALSE
