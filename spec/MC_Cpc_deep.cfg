SPECIFICATION Spec
CONSTANTS Ks = {"4", "1"}  Rs = {"1/2", "1", "3/2", "5/4", "2", "3"}  Xs = {"1/3", "1/2", "1", "3/2", "2"}  Deep = TRUE
INVARIANTS Inside Conserved Limits Undone OnlyWhere Mirrored BestAtPrice Duality Quoted
CHECK_DEADLOCK FALSE
