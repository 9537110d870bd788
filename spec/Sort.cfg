INIT Init
NEXT Next
CONSTANT Shapes = {32, 23, 22, 12, 31}
CONSTANT Cells = {0, 1, 2}
CONSTANT Copies = TRUE
CONSTANT Whole = TRUE
CONSTANT Strict = TRUE
CONSTANT Emit = FALSE
INVARIANT Exact
INVARIANT Kept
INVARIANT Prefix
