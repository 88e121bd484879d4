SPECIFICATION Spec
CONSTANTS H = 2
 Policy = "save"
 MaxSigns = 4
 Ahead = 3
INVARIANTS TypeOK NoReuse SavedPastReleased
PROPERTIES FreshAfterRestore Forward
CHECK_DEADLOCK FALSE
