SPECIFICATION Spec
CONSTANT Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS SeedIsFresh FailOnlyOnFault
PROPERTY Answers
CHECK_DEADLOCK FALSE
