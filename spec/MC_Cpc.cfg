SPECIFICATION Spec
CONSTANTS Ks = {"4"}  Rs = {"1", "3/2", "2"}  Xs = {"1/2", "1", "2"}  Deep = FALSE
INVARIANTS Inside Conserved Limits Undone OnlyWhere Mirrored BestAtPrice Duality Quoted
CHECK_DEADLOCK FALSE
