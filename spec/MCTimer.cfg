SPECIFICATION MCSpec
CONSTANT Check = {"P33", "P34"}
CONSTANT Loud = FALSE
VIEW View
INVARIANT Fine
INVARIANT Emit
CHECK_DEADLOCK FALSE
