SPECIFICATION MCSpec
CONSTANT Check = {}
CONSTANT Loud = FALSE
VIEW View
INVARIANT DesignOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
