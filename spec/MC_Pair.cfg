SPECIFICATION Spec
INVARIANTS RoundTrip PriceIsValue NormalOK LimitOK OtherOK
CHECK_DEADLOCK FALSE
