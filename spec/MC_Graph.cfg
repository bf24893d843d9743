SPECIFICATION Spec
CONSTANTS Toks = {"A", "B", "C"}  Rates = {"1/2", "3"}  Amts = {"1", "2"}  MaxEdges = 3  MaxMoves = 1
INVARIANTS Within Conserved Splits ResetIsNew CopyKeeps RunsThrough PathsFit
CHECK_DEADLOCK FALSE
