INIT Init
NEXT Next
INVARIANTS HexLossless GroupsLossless SplitRight Distinct
CHECK_DEADLOCK FALSE
