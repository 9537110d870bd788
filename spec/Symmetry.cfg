INIT Init
NEXT Next
CONSTANT Shapes = {22, 12, 11}
CONSTANT Cells <- Signed
CONSTANT ModelKinds = {"dn", "csr"}
CONSTANT Bits = 0
CONSTANT Diagonal = TRUE
CONSTANT Emit = FALSE
INVARIANT Exact
