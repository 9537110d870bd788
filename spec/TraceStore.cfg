INIT Init
NEXT Next
ALIAS Alias
CHECK_DEADLOCK TRUE
