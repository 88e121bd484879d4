SPECIFICATION Spec
CONSTANTS H = 2
 Policy = "release"
 MaxSigns = 4
 Ahead = 3
INVARIANTS NoReuse
CHECK_DEADLOCK FALSE
