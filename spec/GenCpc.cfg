SPECIFICATION Spec
CONSTANT Depth = 21
INVARIANT Emit
CHECK_DEADLOCK FALSE
