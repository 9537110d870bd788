INIT Init
NEXT Next
CONSTANT Shapes = {22, 12, 21, 11, 31, 13}
CONSTANT Cells = {0, 1, 2}
CONSTANT Copies = TRUE
CONSTANT Whole = TRUE
CONSTANT Strict = TRUE
CONSTANT Emit = TRUE
CHECK_DEADLOCK FALSE
