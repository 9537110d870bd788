INIT Init
NEXT Next
CONSTANT R = 2
CONSTANT C = 3
CONSTANT Vals = {0, 1, 2}
CONSTANT Candidates = {0, 1}
CONSTANT Above = TRUE
CONSTANT Normal = TRUE
CONSTANT Restart = TRUE
CONSTANT Emit = TRUE
CHECK_DEADLOCK FALSE
