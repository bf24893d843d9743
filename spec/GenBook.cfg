SPECIFICATION Spec
CONSTANT Depth = 15
INVARIANT Emit
CHECK_DEADLOCK FALSE
