SPECIFICATION Spec
CONSTANT Depth = 18
INVARIANT Emit
CHECK_DEADLOCK FALSE
