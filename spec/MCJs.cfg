INIT Init
NEXT Next
CONSTANT DirectDigest = FALSE
INVARIANTS Length ValidExactly Refused DescFollows Rebuild
CHECK_DEADLOCK FALSE
