INIT Init
NEXT Next
CONSTANTS ShapeSet = {22, 14, 41, 31} Vals = {0, 1} ModelKinds = {"csr", "dn"} EmitPairs = FALSE
INVARIANT Exact
CHECK_DEADLOCK FALSE
