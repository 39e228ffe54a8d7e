SPECIFICATION MCSpec
CONSTANT Check = {"P16", "P17"}
CONSTANT Loud = FALSE
VIEW MCView
INVARIANT Fine
INVARIANT Emit
CHECK_DEADLOCK FALSE
