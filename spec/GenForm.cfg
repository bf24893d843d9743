SPECIFICATION Spec
CONSTANT Depth = 23
INVARIANT Emit
CHECK_DEADLOCK FALSE
