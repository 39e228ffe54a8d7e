SPECIFICATION MCSpec
CONSTANT Check = {"P14"}
CONSTANT Loud = FALSE
INVARIANT Fine
INVARIANT Emit
CHECK_DEADLOCK FALSE
