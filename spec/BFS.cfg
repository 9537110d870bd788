INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT Weights = {0, 1}
CONSTANT Loops = TRUE
CONSTANT MaskAll = TRUE
CONSTANT Clears = TRUE
CONSTANT Emit = FALSE
INVARIANT Exact
INVARIANT Returned
INVARIANT Once
INVARIANT Agree
