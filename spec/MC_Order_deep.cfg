SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS Bounded OnCurve AvgBetween PriceInRange Reaches Splits NoFreeLunch ShareOK
CHECK_DEADLOCK FALSE
