INIT Init
NEXT Next
CONSTANT Shapes = {22, 12, 21, 11, 23}
CONSTANT Cells <- Signed
CONSTANT ModelKinds = {"csr"}
CONSTANT Bits = 0
CONSTANT Diagonal = TRUE
CONSTANT Emit = TRUE
CHECK_DEADLOCK FALSE
