SPECIFICATION Spec
INVARIANTS CutOK Ends OrderedPrices LiquidityOK ApproxOK
CHECK_DEADLOCK FALSE
