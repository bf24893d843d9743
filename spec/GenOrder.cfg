SPECIFICATION Spec
CONSTANT Depth = 16
INVARIANT Emit
CHECK_DEADLOCK FALSE
