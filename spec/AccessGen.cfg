INIT Init
NEXT Next
CONSTANTS MaxDim = 2
CHECK_DEADLOCK TRUE
