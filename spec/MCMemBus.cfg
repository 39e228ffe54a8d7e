SPECIFICATION MCSpec
CONSTANT Check = {"P35"}
CONSTANT Loud = FALSE
INVARIANT Fine
INVARIANT Emit
CHECK_DEADLOCK FALSE
