SPECIFICATION MCSpec
CONSTANT Check = {"P36"}
CONSTANT Loud = FALSE
INVARIANT Fine
CHECK_DEADLOCK FALSE
