INIT Init
NEXT Next
CONSTANT Op = "add"
CONSTANT Width = 3
CONSTANT Uns = FALSE
CONSTANT Elements <- Some
CONSTANT MaxLen = 4
INVARIANT Exact
INVARIANT Neutral
