SPECIFICATION Spec
CONSTANT Depth = 20
INVARIANT Emit
CHECK_DEADLOCK FALSE
