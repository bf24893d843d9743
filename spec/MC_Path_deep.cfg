SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANTS Bounded NoGift Settled Idempotent Direction UnitFree OnTheWay
CHECK_DEADLOCK FALSE
