INIT Init
NEXT Next
CONSTANT R = 2
CONSTANT K = 2
CONSTANT C = 2
CONSTANT M = 4
CONSTANT Vals = {0, 1}
CONSTANT Crossover = 1
CONSTANT Tagged = TRUE
CONSTANT EvenOnly = TRUE
INVARIANT Exact
INVARIANT Placed
