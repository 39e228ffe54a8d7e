SPECIFICATION MCSpec
CONSTANT Check <- Decided
CONSTANT Loud = FALSE
VIEW View
INVARIANT Fine
INVARIANT Emit
CHECK_DEADLOCK FALSE
