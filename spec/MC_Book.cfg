SPECIFICATION Spec
INVARIANTS SameCurve Shape Position Reversed Files
CHECK_DEADLOCK FALSE
