INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT Weights = {0, 1}
CONSTANT Loops = TRUE
CONSTANT MaskAll = TRUE
CONSTANT Clears = TRUE
CONSTANT Emit = TRUE
CHECK_DEADLOCK FALSE
