SPECIFICATION Spec
CONSTANTS H = 3
 Policy = "save"
 MaxSigns = 7
 Ahead = 3
INVARIANTS TypeOK NoReuse SavedPastReleased
PROPERTIES FreshAfterRestore Forward
CHECK_DEADLOCK FALSE
