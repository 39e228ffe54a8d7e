SPECIFICATION MCSpec
CONSTANT Check = {"P30", "P31", "P32"}
CONSTANT Loud = FALSE
VIEW View
INVARIANT Accepted2
INVARIANT Exclusive
INVARIANT Emit
CHECK_DEADLOCK FALSE
