SPECIFICATION SimSpec
CONSTANT Check = {}
CONSTANT Loud = FALSE
INVARIANT DesignOk
INVARIANT EmitEnd
CHECK_DEADLOCK FALSE
