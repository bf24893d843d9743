SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS Bounded NoGift Settled Idempotent Direction UnitFree OnTheWay
CHECK_DEADLOCK FALSE
