INIT Init
NEXT Next
CONSTANT R = 2
CONSTANT C = 3
CONSTANT Vals = {0, 1, 2, 3}
CONSTANT Candidates = {0, 1}
CONSTANT Above = TRUE
CONSTANT Normal = TRUE
CONSTANT Restart = TRUE
CONSTANT Emit = FALSE
INVARIANT Defined
INVARIANT Unique
