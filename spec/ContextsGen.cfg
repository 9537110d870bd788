INIT Init
NEXT Next
CONSTANTS
  MaxLen = 3
  Emit = TRUE
INVARIANTS Carries Inherits
