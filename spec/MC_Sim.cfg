SPECIFICATION Spec
CONSTANTS
  Strategies <- MCStrategies
  Trades <- MCTrades
  MaxOps = 3
  MaxOrders = 4
INVARIANTS Conservation Bounded LinksIntact Frame IdsFresh OnlyEligible PriceInRange FillExact Optimal OptimalBeats SplitSame RoundTrip LimitRespected
CHECK_DEADLOCK FALSE
