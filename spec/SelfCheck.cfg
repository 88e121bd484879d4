INIT Init
NEXT Next
CONSTANT DirectDigest = FALSE
