SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS Bounded OnCurve AvgBetween PriceInRange Reaches Splits NoFreeLunch ShareOK
CHECK_DEADLOCK FALSE
