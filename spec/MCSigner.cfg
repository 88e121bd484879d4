SPECIFICATION Spec
CONSTANTS H = 3
 Kinds = {"fast"}
 Huge = 2147483647
INVARIANTS TypeOK NoReuse UsedBelow
PROPERTIES Forward RefusedChangesNothing SignAdvancesByOne
CHECK_DEADLOCK FALSE
