INIT Init
NEXT Next
CONSTANTS How = {"copy", "row", "col", "t"} Kinds0 = {"csr"} MaxObjs = 4 Sharing = FALSE Emit = FALSE MaxLen = 5
INVARIANT Independent
ACTION_CONSTRAINT EmitDone
CHECK_DEADLOCK FALSE
