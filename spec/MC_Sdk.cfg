SPECIFICATION Spec
INVARIANTS JobsOK FloatOK RateOK CapacityOK MarketOK RoundOK
PROPERTY Final
CHECK_DEADLOCK FALSE
